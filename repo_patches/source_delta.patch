From dcc3b15fad47b87b4cabe652b771eb6ce12446e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:16 +0000
Subject: [PATCH 001/150] fix: read FAST text outputs that contain a single
 time step

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..800042e 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -187,7 +187,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From 4040e9e3e3e954fe00691046f66eb4608931a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:16 +0000
Subject: [PATCH 002/150] fix: unbuffered reading of uncompressed FAST binary
 outputs

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 800042e..9c7dcf4 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -277,8 +277,8 @@ def load_binary_output(filename, use_buffer=True):
             TimeIncr = fread(fid, 1, 'float64')  #;           % The time increment, REAL(8)
 
         if FileID == FileFmtID_NoCompressWithoutTime:
-            ColScl = np.ones ((NumOutChans, 1)) # The channel slopes for scaling, REAL(4)
-            ColOff = np.zeros((NumOutChans, 1)) # The channel offsets for scaling, REAL(4)
+            ColScl = np.ones (NumOutChans) # The channel slopes for scaling, REAL(4)
+            ColOff = np.zeros(NumOutChans) # The channel offsets for scaling, REAL(4)
         else:
             ColScl = fread(fid, NumOutChans, 'float32')  # The channel slopes for scaling, REAL(4)
             ColOff = fread(fid, NumOutChans, 'float32')  # The channel offsets for scaling, REAL(4)
-- 
2.43.0


From f64185ac8ca18b08124538acd37fa907326bc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:16 +0000
Subject: [PATCH 003/150] fix: writeDataFrame reused the previous unit for
 columns without unit, and silently ignored binary=False

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 9c7dcf4..fb177a8 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -388,7 +388,7 @@ def writeDataFrame(df, filename, binary=True):
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
     else:
-        NotImplementedError()
+        raise NotImplementedError()
 
 
 def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
-- 
2.43.0


From 59790470b333fbff1e4e79b110c2c56c581836ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:16 +0000
Subject: [PATCH 004/150] fix: writeBinary failed when the time channel has no
 unit

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index fb177a8..2a75bb6 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if not chanUnits[0].startswith('('):
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From 54709803466eb894d26c326c6a5fe84e1d9f1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:10 +0000
Subject: [PATCH 005/150] fix: write FAST binary outputs that contain a single
 time step

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 2a75bb6..0c144d4 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -426,7 +426,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
     time = channels[:,iTime]
     timeStart = time[0]
-    timeIncr  = time[1]-time[0]
+    timeIncr  = time[1]-time[0] if nT>1 else 0
     dataWithoutTime = channels[:,1:]
         
     # Compute data range, scaling and offsets to convert to int16
-- 
2.43.0


From d0dde570f6560c4cfbb5fcd70162413787b77f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 006/150] fix: TurbSim queries removed the mean of the stored
 velocities in place

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..6e74488 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -248,9 +248,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -264,9 +264,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -280,9 +280,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -301,9 +301,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -319,9 +319,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 3492fb6c2af9a15c677be9bb88b04970c24f6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 007/150] fix: TurbSim write wrapped around int16 or was off by
 a full step for (nearly) steady components

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 6e74488..b0812c5 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: rounding and clipping since the single precision scaling can exceed the int16 range
+            out[k]    = np.clip(np.rint(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.rint(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From e27c6b32a886c845729234394a4c7bb2d89ab2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 008/150] fix: TurbSim vertProfile averages the standard
 deviation across y instead of taking its scatter

---
 weio/turbsim_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index b0812c5..3ce2253 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -336,7 +336,7 @@ class TurbSimFile(File):
         """
         if y_span=='full':
             m = np.mean(np.mean(self['u'][:,:,:,:], axis=1), axis=1)
-            s = np.std( np.std( self['u'][:,:,:,:], axis=1), axis=1)
+            s = np.mean(np.std( self['u'][:,:,:,:], axis=1), axis=1)
         elif y_span=='mid':
             iy, iz = self.iMid
             m = np.mean(self['u'][:,:,iy,:], axis=1)
-- 
2.43.0


From 0c49fce88e3dd6125948a25f125261763d36b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 009/150] fix: Mann box reader silently ignored a file size
 that does not match the dimensions

---
 weio/mannbox_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/mannbox_file.py b/weio/mannbox_file.py
index 4df52dc..613c6fb 100644
--- a/weio/mannbox_file.py
+++ b/weio/mannbox_file.py
@@ -119,6 +119,8 @@ class MannBoxFile(File):
             else:
                 raise BrokenFormatError('Reading a Mann box requires the knowledge of the dimensions. The dimensions can be inferred from the filename, for instance: `filebase_1024x32x32.u`. Try renaming your file such that the three last digits are the dimensions in x, y and z.')
         nx,ny,nz=N
+        if os.stat(self.filename).st_size != 4*nx*ny*nz:
+            raise BrokenFormatError('Size of turbulence box does not match nx x ny x nz ({}x{}x{}): {}'.format(nx,ny,nz,self.filename))
 
         def _read_buffered():
             data=np.zeros((nx,ny,nz),dtype=np.float32)
-- 
2.43.0


From 0de305d9a2d5a00ad3a175e713ed51f02f89f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 010/150] fix: text tables with non-ascii characters after the
 first 32 bytes could not be read

---
 weio/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/file.py b/weio/file.py
index c28f78f..e1e3562 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -69,6 +69,9 @@ class File(dict):
             return 'utf-8-sig'
         else:
             result = chardet.detect(raw)
+            # NOTE: ascii is a subset of utf-8, and only the start of the file was inspected
+            if result['encoding'] is not None and result['encoding'].lower()=='ascii':
+                return 'utf-8'
             return result['encoding']
 
 
-- 
2.43.0


From 159c082f3d7f129f759fc295b605164576d3e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 011/150] fix: separator detection of CSV files with a single
 line of data, or with a missing first value

---
 weio/csv_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..ffd1811 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -157,13 +157,14 @@ class CSVFile(File):
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip() for x in range(2)]
+                    head=[next(f).strip()]
+                    head+=[next(f, head[0]).strip()] # NOTE: there might be only one line
                 # comma, semi columns or tab
-                if head[1].find(',')>0:
+                if ',' in head[1]:
                     self.sep=','
-                elif head[1].find(';')>0:
+                elif ';' in head[1]:
                     self.sep=';'
-                elif head[1].find('\t')>0:
+                elif '\t' in head[1]:
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
-- 
2.43.0


From fb7bd3efb0bb87a23de81e6b6e9812c240aef45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 012/150] fix: CSV files with comment lines lost their column
 names when written, and missing values were lost in blank-separated files

---
 weio/csv_file.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index ffd1811..9cfbdae 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -257,23 +257,18 @@ class CSVFile(File):
         # --- Safety
         if self.sep==r'\s+' or self.sep=='':
             self.sep='\t'
+        # NOTE: missing values need to be written explicitly when columns are separated by blanks
+        na_rep = 'NaN' if self.sep in ['\t',' '] else ''
         # Write
         if len(self.header)>0:
-            with open(self.filename, 'w', encoding='utf-8') as f:
+            # Column names need to be written unless they are already part of the header
+            headerLines = self.commentLines if len(self.commentLines)>0 else range(len(self.header))
+            writeNames = self.colNamesLine is not None and self.colNamesLine>=0 and self.colNamesLine not in headerLines
+            with open(self.filename, 'w', encoding='utf-8', newline='\n') as f:
                 f.write('\n'.join(self.header)+'\n')
-            with open(self.filename, 'a', encoding='utf-8') as f:
-                try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
-                except TypeError:
-                    print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
-                    s=''
-                    vals=self.data.values
-                    for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
-                        s+=sLine+'\n'
-                    f.write(s)
+                self.data.to_csv(f, sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
         else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(self.filename, sep=self.sep, index=False, na_rep=na_rep)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From 1dbcc39d2b8d3a17c9d0e7b5311f9380ca619fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 013/150] fix: writing a CSV file created without specifying a
 separator

---
 weio/csv_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 9cfbdae..14950bc 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -257,6 +257,8 @@ class CSVFile(File):
         # --- Safety
         if self.sep==r'\s+' or self.sep=='':
             self.sep='\t'
+        elif self.sep is None:
+            self.sep=','
         # NOTE: missing values need to be written explicitly when columns are separated by blanks
         na_rep = 'NaN' if self.sep in ['\t',' '] else ''
         # Write
-- 
2.43.0


From 318224bdb040f2bf5e54fabb22768b9193f2793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 014/150] fix: separator detection of CSV files with a single
 line of data followed by blank lines

---
 weio/csv_file.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 14950bc..75dcec4 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -158,13 +158,15 @@ class CSVFile(File):
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
                     head=[next(f).strip()]
-                    head+=[next(f, head[0]).strip()] # NOTE: there might be only one line
+                    second = next(f, '').strip()
+                    if len(second)>0: # NOTE: there might be only one line
+                        head.append(second)
                 # comma, semi columns or tab
-                if ',' in head[1]:
+                if ',' in head[-1]:
                     self.sep=','
-                elif ';' in head[1]:
+                elif ';' in head[-1]:
                     self.sep=';'
-                elif '\t' in head[1]:
+                elif '\t' in head[-1]:
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
-- 
2.43.0


From 2d239c31c36f74f396124568bed67f55e68e28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 015/150] fix: encoding detection when a utf-8 character is cut
 at the end of the inspected bytes

---
 weio/file.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weio/file.py b/weio/file.py
index e1e3562..8e192d4 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -68,10 +68,15 @@ class File(dict):
         if raw.startswith(codecs.BOM_UTF8):
             return 'utf-8-sig'
         else:
+            # NOTE: only the start of the file is inspected: the last character might be cut,
+            #       and there might be non-ascii characters further down (ascii is a subset of utf-8)
+            try:
+                codecs.getincrementaldecoder('utf-8')().decode(raw)
+                if b'\0' not in raw:
+                    return 'utf-8'
+            except UnicodeDecodeError:
+                pass
             result = chardet.detect(raw)
-            # NOTE: ascii is a subset of utf-8, and only the start of the file was inspected
-            if result['encoding'] is not None and result['encoding'].lower()=='ascii':
-                return 'utf-8'
             return result['encoding']
 
 
-- 
2.43.0


From 358eda9fae2dd45b207b4c13a06fda70dbef4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 016/150] fix: blank-separated CSV files with column names in
 the comments lost their names after being written

---
 weio/csv_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 75dcec4..aef7339 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -226,6 +226,9 @@ class CSVFile(File):
                             if len(self.commentChar)>0:
                                 l=l[len(self.commentChar):]
                         cols=split(l)
+                        if self.sep=='\t' and len(cols)!=len(first_cols):
+                            # Data separated by tabs, but names separated by blanks (e.g. after we wrote the file)
+                            cols = l.strip().split()
                         nFloat = sum([strIsFloat(s) for s in cols])
                         if len(cols)==len(first_cols) and nFloat <= len(colNames)-1:
                             self.colNames = cols
-- 
2.43.0


From 27985235ac39c869abe42ff7fd569309c1c7d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 017/150] fix: writing a FAST input file with a single airfoil
 or no output channel added a blank line, and added text to the additional
 stiffness

---
 weio/fast_input_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..35ff41d 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -714,8 +714,12 @@ class FASTInputFileBase(File):
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-                s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                s+='\n'.join(fil for fil in d['value'][1:])
+                if d['label']=='KDAdd':
+                    # NOTE: the label is not in the file
+                    s+='\n'.join(d['value'])
+                else:
+                    firstLine = '{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                    s+='\n'.join([firstLine]+list(d['value'][1:]))
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From 0cb355b475334dea0585c7a2b0b66e5107872cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 018/150] fix: END line of FAST input files was truncated when
 read

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 35ff41d..0c9b00b 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1021,6 +1021,7 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
             if len(sp)>2 and sp[1]=='of':
                 d['isComment']=True
                 d['value']=line_raw
+                return d
 
         # Detecting lists
         List=[];
-- 
2.43.0


From 31b64c40413a26a9f81b8f781f36ed94f11fbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 019/150] fix: FAST input files with non utf-8 characters could
 be read but not written

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 0c9b00b..9eb366c 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -751,7 +751,7 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def toDataFrame(self):
@@ -1586,7 +1586,7 @@ class ADPolarFile(FASTInputFileBase):
                     if i>0:
                         self.data[i]['label'] = labRaw
             # Write
-            with open(self.filename,'w') as f:
+            with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(self.toString())
             # Restore labels 
             for i,labFull in enumerate(AllLabels):
-- 
2.43.0


From d27b8ed20ecbe44be7544fc3edaad161dbdb54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 020/150] fix: assigning to an absent label of a FAST input
 file was silently ignored; comment and iteration of FAST input files;
 EDBladeFile given a file name

---
 weio/fast_input_file.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9eb366c..4352480 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -124,7 +124,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
@@ -206,7 +206,7 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
+        if len(I)==0:
             raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
         else:
             return I
@@ -226,7 +226,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
@@ -1349,7 +1349,9 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
         else:
             # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
+            self.data[1] = getDict()
+            self.data[1]['isComment'] = True
+            self.data[1]['value'] = self._lines[1]
         self.module='EDBlade'
 
     def _writeSanityChecks(self):
@@ -1637,7 +1639,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return '\n'.join([self.data[i]['value'][1:].strip() for i in self._IComment])
 
     @comment.setter
     def comment(self, comment):
-- 
2.43.0


From 617c2590f96e8957298eb0ceb679d10aeabbb6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 021/150] fix: FAST input file reader raised a NameError
 instead of EmptyFileError for empty files

---
 weio/fast_input_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 4352480..098388a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,13 +8,15 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
         pass
     class BrokenFormatError(Exception):
         pass
+    class EmptyFileError(Exception):
+        pass
     File = dict
 import os
 import numpy as np
-- 
2.43.0


From 08794fa16283429474fb2d41c89905550d32556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 022/150] fix: airfoil coordinates files could not be read back
 after being written

---
 weio/fast_input_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 098388a..24c8f47 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -483,7 +483,7 @@ class FASTInputFileBase(File):
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
                         self.data.append(parseFASTInputLine(lines[i],i)); i+=1;
-                        splits=cleanAfterChar(cleanLine(lines[i]),'!').split()
+                        splits=cleanAfterChar(cleanLine(lines[i]),'!').replace(',',' ').split()
                         # Airfoil ref point
                         try:
                             pos=[float(splits[0]), float(splits[1])]
@@ -712,7 +712,8 @@ class FASTInputFileBase(File):
                     s+='\n'.join('\t'.join('{}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_NUM_WITH_HEADERCOM:
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
-                s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
+                if d['label']!='AirfoilCoord': # coordinates have no line of units
+                    s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-- 
2.43.0


From 54e82f4889fcab81212d43239d894a2b196585a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 023/150] fix: last row of ExtPtfm loads dropped when the
 number of time steps is not exactly represented

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 24c8f47..c53f03a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1710,7 +1710,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(self['T']/self['dt'])+1
+                    nt=int(np.floor(self['T']/self['dt']+1e-6))+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From 582c25b09c16c6c66ef254058bd0e315bb9054b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 024/150] fix: airfoil file names with spaces were cut in FAST
 input files

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index c53f03a..f278472 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1288,6 +1288,7 @@ def parseFASTFilTable(lines,n,iStart):
             raise WrongFormatError('Not enough lines in table: {} lines instead of {}'.format(len(lines),n))
         for i in range(n):
             l = lines[i].split()
+            _merge_value(l) # quoted file names may contain spaces
             #print(l[0].strip())
             Tab.append(l[0].strip())
             
-- 
2.43.0


From 5655e560f8120e6146535a4b7f6c16ede89bb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 025/150] fix: some labels of polars with several tables got an
 extra suffix each time the file was written

---
 weio/fast_input_file.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index f278472..6f7f753 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1522,7 +1522,7 @@ class ADPolarFile(FASTInputFileBase):
                 self.addValKey(     1.0 ,    'Re'  +labOffset , 'Reynolds number in millions')
                 self.addValKey(       0 ,    'Ctrl'+labOffset , 'Control setting')
                 if hasUA:
-                    self.addValKey(True  ,    'InclUAdata', 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
+                    self.addValKey(True  ,    'InclUAdata'+labOffset, 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
                     self.addComment('!........................................')
                     self.addValKey(     np.nan   , 'alpha0'    + labOffset, r"0-lift angle of attack, depends on airfoil.")
                     self.addValKey(     np.nan   , 'alpha1'    + labOffset, r"Angle of attack at f=0.7, (approximately the stall angle) for AOA>alpha0. (deg)")
@@ -1581,16 +1581,17 @@ class ADPolarFile(FASTInputFileBase):
             FASTInputFileBase._write(self)
         else:
             self._writeSanityChecks()
-            Labs=['Re','Ctrl','UserProp','alpha0','alpha1','alpha2','eta_e','C_nalpha','T_f0','T_V0','T_p','T_VL','b1','b2','b5','A1','A2','A5','S1','S2','S3','S4','Cn1','Cn2','St_sh','Cd0','Cm0','k0','k1','k2','k3','k1_hat','x_cp_bar','UACutout','filtCutOff','InclUAdata','NumAlf','AFCoeff']
             # Store all labels
             AllLabels=[self.data[i]['label'] for i in range(len(self.data))]
             # Removing lab Offset - TODO TEMPORARY HACK
-            for iTab in range(nTabs):
-                labOffset='_{}'.format(iTab+1)
-                for labRaw in Labs:
-                    i = self.getIDSafe(labRaw+labOffset)
-                    if i>0:
-                        self.data[i]['label'] = labRaw
+            labOffsets=['_{}'.format(iTab+1) for iTab in range(nTabs)]
+            for d in self.data:
+                for labOffset in labOffsets:
+                    if d['label'].endswith(labOffset):
+                        d['label'] = d['label'][:-len(labOffset)]
+                        if d['label']=='re':
+                            d['label']='Re'
+                        break
             # Write
             with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(self.toString())
-- 
2.43.0


From 08d93faf130b2be18791b08bdb0f4676339c6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 026/150] fix: conversion to dataframe of polars without
 unsteady aerodynamics data

---
 weio/fast_input_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 6f7f753..a52f327 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1613,11 +1613,13 @@ class ADPolarFile(FASTInputFileBase):
             alpha = df['Alpha_[deg]'].values*np.pi/180.
             Cl    = df['Cl_[-]'].values
             Cd    = df['Cd_[-]'].values
-            Cd0   = self['Cd0'+labOffset]
             # Cn (with or without Cd0)
-            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             Cn  = Cl*np.cos(alpha)+ Cd*np.sin(alpha) 
             df['Cn_[-]'] = Cn
+            if self.getIDSafe('Cd0'+labOffset)<0:
+                continue # No unsteady aerodynamics data
+            Cd0   = self['Cd0'+labOffset]
+            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             df['Cn_Cd0off_[-]'] = Cn1
 
             CnLin = self['C_nalpha'+labOffset]*(alpha-self['alpha0'+labOffset]*np.pi/180.)
-- 
2.43.0


From 40307a64decaaa6c72fbc9d8e638ab3b4fd0cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 027/150] fix: FAST input files with a negative integer on the
 third line could not be read

---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a52f327..c5a5022 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -854,6 +854,8 @@ class FASTInputFileBase(File):
         if not strIsInt(L3[0]):
             return False
         nTables=int(L3[0])
+        if nTables<=0:
+            return False
         # Reading table ID
         L4 = lines[3].strip().split()
         if len(L4)<=nTables:
-- 
2.43.0


From c1efafba48756a7fe0d7d618d1e307415a539a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 028/150] fix: label of the nodal output list of FAST input
 files grew each time the file was written

---
 weio/fast_input_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index c5a5022..2944580 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -721,7 +721,10 @@ class FASTInputFileBase(File):
                     # NOTE: the label is not in the file
                     s+='\n'.join(d['value'])
                 else:
-                    firstLine = '{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                    label = d['label']
+                    if label.endswith('_Nodal'):
+                        label = label[:-len('_Nodal')] # NOTE: suffix added when reading, not in the file
+                    firstLine = '{} {} {}'.format(d['value'][0],label,d['descr']) # TODO?
                     s+='\n'.join([firstLine]+list(d['value'][1:]))
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
-- 
2.43.0


From 31534da257844fc481769c445a580077fa2437fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:14 +0000
Subject: [PATCH 029/150] fix: fileFormats(ignoreErrors=True) returned a list
 instead of a tuple once the formats are cached

---
 weio/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..0d2dec4 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -20,6 +20,8 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """
     global _FORMATS
     if _FORMATS is not None:
+        if ignoreErrors:
+            return _FORMATS, []
         return _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
-- 
2.43.0


From 76f5b73cff0d561515ed23df413748323ca3527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 030/150] fix: weio.read dropped the reader arguments when the
 file format was given

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 0d2dec4..c68ca9a 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -248,7 +248,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From 2f51a607245aa2070d5ddf5d574d14698ff8481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 031/150] fix: __init__.py of the user folder was not skipped
 when looking for user file formats

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c68ca9a..c98fcf7 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -145,7 +145,7 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         pyfiles = glob.glob(os.path.join(userpath,'*.py'))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
-            if f in ['__init__.py']:
+            if os.path.basename(f) in ['__init__.py']:
                 continue
             mod_name = os.path.basename(os.path.splitext(f)[0])
             try:
-- 
2.43.0


From 170b7f047c2eee91a474d51e510de894a41c33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:24 +0000
Subject: [PATCH 032/150] fix: formats registered with upper case letters in
 their extension were never detected

---
 weio/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c98fcf7..2c17479 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -219,11 +219,12 @@ def detectFormat(filename, **kwargs):
     i = 0 
     while not detected and i<len(formats):
         myformat = formats[i]
-        if ext in myformat.extensions:
+        extensions = [ef.lower() for ef in myformat.extensions] # NOTE: ext is lower case
+        if ext in extensions:
             extMatch = True
         else:
             # Try patterns if present
-            extPatterns = [ef.replace('.','\.').replace('$','\$').replace('*','[.]*') for ef in myformat.extensions if '*' in ef]
+            extPatterns = [ef.replace('.','\.').replace('$','\$').replace('*','[.]*') for ef in extensions if '*' in ef]
             if len(extPatterns)>0:
                 extPatMatch = [re.match(pat, ext) is not None for pat in extPatterns]
                 extMatch = any(extPatMatch)
-- 
2.43.0


From 936a02eadad6a6753dbbba408c48c8f156f48729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:26 +0000
Subject: [PATCH 033/150] fix: converting HAWC2 outputs to dataframe changed
 the sensor names stored in the object (and written later)

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..3822280 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names']) # NOTE: copy, names are modified below
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 3ee80d1ac72ee65c5d6adca8ef354c237990d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:29 +0000
Subject: [PATCH 034/150] fix: HAWC2 outputs written to the wrong dat file when
 the path contains .sel several times

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3822280..aad7424 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -107,7 +107,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=filename[:-4]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From cd25391f83a4009dce0b0c533153d2709b890804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 035/150] fix: HAWC2 outputs written as BHawC outputs when the
 object previously read a BHawC file

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index aad7424..642ba40 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -41,8 +41,7 @@ class HAWC2DatFile(File):
             self.info['attribute_names'] = res_file.ChInfo[0]
             self.info['attribute_units'] = res_file.ChInfo[1]
             self.info['attribute_descr'] = res_file.ChInfo[2]
-            if res_file.FileFormat=='BHAWC_ASCII':
-                self.bHawc=True
+            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
         except FileNotFoundError:
             raise
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
-- 
2.43.0


From 709ea6059c088dc8ab054dcd271b25f62a81837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 036/150] fix: last character of the last sensor description of
 HAWC2 sel files lost when there is no final line return

---
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..5d849c5 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -153,7 +153,7 @@ class ReadHawc2(object):
             for i in range(0, self.NrCh):
                 temp = str(Lines[i + 12][12:43]); Name.append(temp.strip())
                 temp = str(Lines[i + 12][43:54]); Unit.append(temp.strip())
-                temp = str(Lines[i + 12][54:-1]); Description.append(temp.strip())
+                temp = str(Lines[i + 12][54:]); Description.append(temp.strip())
             self.ChInfo = [Name, Unit, Description]
             # if binary file format, scaling factors are read
             if Format.lower() == 'binary':
-- 
2.43.0


From 0d987bfdfe1b2b1c44c21022b9b9fa2b475663e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 037/150] fix: HAWC2 outputs with a final time of zero could
 not be read

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 5d849c5..9458709 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -95,7 +95,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time>0 else np.nan
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
@@ -145,7 +145,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time>0 else np.nan
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             Format = temp[3]
             # reads channel info (name, unit and description)
-- 
2.43.0


From 0912240c0a312e75b91a360ad7efefde0619ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:42 +0000
Subject: [PATCH 038/150] fix: BHawC sel files with few channels, or with the
 unit in the sensor description, could not be read

---
 weio/wetb/hawc2/Hawc2io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 9458709..3842da9 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -86,7 +86,7 @@ class ReadHawc2(object):
         if Lines[0].lower().find('bhawc')>=0:
             # --- Find line with scan info
             iLine=0
-            for i in np.arange(5,10):
+            for i in np.arange(5,min(10,len(Lines))):
                 if Lines[i].lower().find('scans')>=0:
                     iLine=i+1
             if iLine==0:
@@ -99,7 +99,7 @@ class ReadHawc2(object):
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
-            for i in np.arange(5,13):
+            for i in np.arange(5,min(13,len(Lines))):
                 if Lines[i].lower().find('channel')>=0:
                     iLine=i+1
             if iLine==0:
@@ -119,7 +119,7 @@ class ReadHawc2(object):
                 iNum  = line.find(num)
                 line  = line[iNum+len(num)+1:]
                 unit  = sp[-1]
-                iUnit = line.find(unit)
+                iUnit = line.rfind(unit)
                 line  = line[:iUnit]
                 # --- Splitting to find label and description
                 sp=[sp.strip() for sp in line.split('\t') if len(sp.strip())>0]
-- 
2.43.0


From 889de1c511678aa58c745e5e53764be6b1fefe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 039/150] fix: HAWC2 ae files whose sets are not numbered
 1,2,3... could not be converted to dataframe

---
 weio/hawc2_ae_file.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..0098910 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -58,21 +58,18 @@ class HAWC2AEFile(File):
         cols=['radius_[m]','chord_[m]','thickness_[%]','pc_set_[#]']
         nset = len(self.data.ae_sets)
         if nset == 1:
-            return pd.DataFrame(data=self.data.ae_sets[1], columns=cols)
+            return pd.DataFrame(data=self.sets[0], columns=cols)
         else:
             dfs = {}
-            for iset,aeset in enumerate(self.data.ae_sets):
-                name='ae_set_{}'.format(iset+1)
-                dfs[name] = pd.DataFrame(data=self.data.ae_sets[iset+1], columns=cols)
+            for iset,aeset in self.data.ae_sets.items():
+                name='ae_set_{}'.format(iset)
+                dfs[name] = pd.DataFrame(data=aeset, columns=cols)
             return dfs
 
     @property
     def sets(self):
         # Returns a list of ae_sets, otherwise not easy to iterate
-        sets=[]
-        for iset,aeset in enumerate(self.data.ae_sets):
-            sets.append(self.data.ae_sets[iset+1])
-        return sets
+        return list(self.data.ae_sets.values())
 
     # --- Convenient utils
     def add_set(self, **kwargs):
-- 
2.43.0


From 7a10fdfae6dbb4bf98bfdaf6635e89d2d7bbafd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:23 +0000
Subject: [PATCH 040/150] fix: AEFile.radius_ae returned all radii instead of
 the closest one for radius 0

---
 weio/wetb/hawc2/ae_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index 2521d47..c5a3a6e 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -58,7 +58,7 @@ class AEFile(object):
 
     def radius_ae(self, radius=None, set_nr=1):
         radii = self.ae_sets[set_nr][:, 0]
-        if radius:
+        if radius is not None:
             return radii[np.argmin(np.abs(radii - radius))]
         else:
             return radii
-- 
2.43.0


From 0a1051f8f6d55455ed41a732ef78d76c15cf093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:26 +0000
Subject: [PATCH 041/150] fix: sets of HAWC2 pc files could not be accessed

---
 weio/hawc2_pc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..e7a75c5 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -77,7 +77,7 @@ class HAWC2PCFile(File):
 
     @property
     def sets(self):
-        return self.pc_sets
+        return self.data.pc_sets
 
     def __repr__(self):
         cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
-- 
2.43.0


From c1a59df42bc7433c6e0aef005c15731f6436f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:29 +0000
Subject: [PATCH 042/150] fix: columns of HAWC2 st files were merged when
 written for negative numbers with a three-digit exponent

---
 weio/hawc2_st_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_st_file.py b/weio/hawc2_st_file.py
index 0b484f9..f2389c4 100644
--- a/weio/hawc2_st_file.py
+++ b/weio/hawc2_st_file.py
@@ -41,7 +41,7 @@ class HAWC2StFile(File):
         self.data = StFile(self.filename)
 
     def _write(self):
-        self.data.save(self.filename, precision='%15.07e', encoding='utf-8')
+        self.data.save(self.filename, precision='%15.07e ', encoding='utf-8')
 
     def __repr__(self):
         s='<{} object> with attribute `data`\n'.format(type(self).__name__)
-- 
2.43.0


From d4e6a71f74e2a75a3f00bcea12e20e866e4bf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 043/150] fix: recognise output sections whatever the blanks
 after begin

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..2682773 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -226,7 +226,7 @@ class HTCSection(HTCContents):
     @staticmethod
     def from_lines(lines):
         line, begin_comments = parse_next_line(lines)
-        name = line[6:].lower()
+        name = line[6:].strip().lower()
         if name == "output":
             section = HTCOutputSection(name, begin_comments)
         elif name.startswith("output_at_time"):
-- 
2.43.0


From ec309af187dc613a1aca9cf085cad659b73ce96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:33 +0000
Subject: [PATCH 044/150] fix: htc sections with several consecutive blank
 lines

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 2682773..43228fa 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -236,7 +236,7 @@ class HTCSection(HTCContents):
         while lines:
             if lines[0].strip() == "":
                 lines.pop(0)
-            if lines[0].lower().startswith("begin"):
+            elif lines[0].lower().startswith("begin"):
                 section._add_contents(HTCSection.from_lines(lines))
             elif lines[0].lower().startswith("end"):
                 line, section.end_comments = parse_next_line(lines)
-- 
2.43.0


From 2cf7865c524682bc67dbeac9cfffed16c6781d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:36 +0000
Subject: [PATCH 045/150] fix: save output_at_time sections with a comment on
 their begin line

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 43228fa..89c589b 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -419,7 +419,7 @@ class HTCOutputAtTimeSection(HTCOutputSection):
 
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
-                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip())])
+                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
         s += "".join([c.__str__(level + 1) for c in self])
         s += "".join([s.__str__(level + 1) for s in self.sensors])
         s += "%send %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.end_comments)
-- 
2.43.0


From d7292ede44bbd6db18263b1825587a638dceeaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 046/150] fix: keep comments following a blank line when saving
 htc files

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 89c589b..71aa82a 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -309,7 +309,7 @@ class HTCLine(HTCContents):
 
     def __str__(self, level=0):
         if self.name_ == "":
-            return ""
+            return ("", "%s;%s\n" % ("  " * level, self.comments))[bool(self.comments.strip())]
         return "%s%s%s;%s\n" % ("  " * (level), self.name_,
                                 ("", "\t" + self.str_values())[bool(self.values)],
                                 ("", "\t" + self.comments)[bool(self.comments.strip())])
-- 
2.43.0


From 7d253861602c5df59e50cc1ff443dd1516250d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 047/150] fix: htc files without new_htc_structure have no
 bodies

---
 weio/hawc2_htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 0a7449c..4f0b863 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -43,7 +43,7 @@ class HAWC2HTCFile(File):
 
     @property
     def bodyDict(self):
-        struct = self.data.new_htc_structure
+        struct = self.data.get('new_htc_structure', {})
         bodyKeys = [k for k in struct.keys() if k.startswith('main_body')]
         #print('>>> keys', struct.keys())
         bdDict={}
@@ -99,7 +99,7 @@ class HAWC2HTCFile(File):
         simdir  = os.path.dirname(self.filename)
 
         # --- C2 def
-        bodyKeys = [k for k in self.data.new_htc_structure.keys() if k.startswith('main_body')]
+        bodyKeys = [k for k in self.data.get('new_htc_structure', {}).keys() if k.startswith('main_body')]
         for k in bodyKeys:
             bdy = self.data.new_htc_structure[k]
             try:
-- 
2.43.0


From 79b65057453e577212b55230c96101cdbf977fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 048/150] fix: htc: included files are searched without regard
 to case, as the other input files

---
 weio/wetb/hawc2/htc_file.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 6848a7e..a93d3b0 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -47,6 +47,13 @@ def fixcase(path):
         # Use matched folder
         p = pjoin(p, f_lst[0])
     return p
+
+def isfile_case_insensitive(f):
+    try:
+        f = fixcase(f)  # raises exception if not existing
+        return os.path.isfile(f)
+    except IOError:
+        return False
 # --- end os_path
 
 class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
@@ -144,12 +151,6 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             return "../"
         rel_input_files = [f for f in input_files if not os.path.isabs(f)]
 
-        def isfile_case_insensitive(f):
-            try:
-                f = fixcase(f)  # raises exception if not existing
-                return os.path.isfile(f)
-            except IOError:
-                return False
         found = ([np.sum([isfile_case_insensitive(os.path.join(os.path.dirname(self.filename), "../" * i, f))
                           for f in rel_input_files]) for i in range(4)])
 
@@ -204,7 +205,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
                 if self.modelpath == 'unknown':
                     p = os.path.dirname(self.filename)
-                    lu = [os.path.isfile(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
+                    lu = [isfile_case_insensitive(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
                           for i in range(4)].index(True)
                     filename = os.path.join(p, "../" * lu, filename)
                 else:
-- 
2.43.0


From ac13278c9c23d44280a6c682777a3cb03f4a6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:08 +0000
Subject: [PATCH 049/150] fix: htc: included files count when the model path is
 detected

---
 weio/wetb/hawc2/htc_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index a93d3b0..084f9b2 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -106,6 +106,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
     filename = None
     jinja_tags = {}
     htc_inputfiles = []
+    htc_includes = []
     level = 0
     modelpath = "../"
     initial_comments = None
@@ -146,10 +147,11 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
 
         #print (["../"*i for i in range(3)])
         import numpy as np
-        input_files = HTCFile(self.filename, 'unknown').input_files()
+        htc = HTCFile(self.filename, 'unknown')
+        input_files = htc.input_files()
         if len(input_files) == 1:  # only input file is the htc file
             return "../"
-        rel_input_files = [f for f in input_files if not os.path.isabs(f)]
+        rel_input_files = [f for f in input_files + htc.htc_includes if not os.path.isabs(f)]
 
         found = ([np.sum([isfile_case_insensitive(os.path.join(os.path.dirname(self.filename), "../" * i, f))
                           for f in rel_input_files]) for i in range(4)])
@@ -165,6 +167,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         self.contents = OrderedDict()
         self.initial_comments = []
         self.htc_inputfiles = []
+        self.htc_includes = []
         if self.filename is None:
             lines = self.empty_htc.split("\n")
         else:
@@ -203,6 +206,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             if l.lower().lstrip().startswith('continue_in_file'):
                 filename = l.lstrip().split(";")[0][len("continue_in_file"):].strip().lower()
 
+                self.htc_includes.append(filename.replace("\\", "/"))
                 if self.modelpath == 'unknown':
                     p = os.path.dirname(self.filename)
                     lu = [isfile_case_insensitive(os.path.abspath(os.path.join(p, "../" * i, filename.replace("\\", "/"))))
-- 
2.43.0


From addde9717464a66e09ed9b2876a7496b969b1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:33 +0000
Subject: [PATCH 050/150] fix: FLEX results: the time axis has as many values
 as there are steps, whatever the rounding of the time step

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..75ddbfd 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (self.tmin + np.arange(self.nt) * np.float64(self.dt)).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From cfe22fb1504325fdf95dbd149bff54a2b35537f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:35 +0000
Subject: [PATCH 051/150] fix: FLEX doc: keep the first row of matrices, and
 read the blade matrices

---
 weio/flex_doc_file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..36b127e 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -54,7 +54,7 @@ class FLEXDocFile(File):
         ]
 
         ArraysNoHeader=[
-        '#Blade_IsolatedMassMatrix'
+        '#Blade_IsolatedMassMatrix',
         '#Blade_IsolatedStiffnessMatrix',
         '#Blade_IsolatedDampingMatrix',
         '#Foundation_IsolatedMassMatrix',
@@ -129,8 +129,6 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    header=lines[i]
-                    i=i+1
                     while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
-- 
2.43.0


From e014340073114d7fc626f3acb8682917f0601231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:38 +0000
Subject: [PATCH 052/150] fix: FLEX doc extension misses its dot

---
 weio/flex_doc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 36b127e..19c05f3 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -14,7 +14,7 @@ class FLEXDocFile(File):
 
     @staticmethod
     def defaultExtensions():
-        return ['.out','doc']
+        return ['.out','.doc']
 
     @staticmethod
     def formatName():
-- 
2.43.0


From 34b96c02682e2db609760974a6e9f2d0f5e929dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 053/150] fix: FLEX doc: digits of units and text are not
 values, and text is kept

---
 weio/flex_doc_file.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 19c05f3..4c7ae88 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -148,12 +148,18 @@ class FLEXDocFile(File):
                     key=keys[0][1:]
                     subkey = '_'.join(keys[1:])
                     values= ' '.join(sp[1:])
-                    try:
-                        dat= np.array(rx.findall(values)).astype(float)
-                        if len(dat)==1:
-                            dat=dat[0]
-                    except:
+                    # Leading numbers (what follows are units and comments), or text
+                    dat = []
+                    for v in sp[1:]:
+                        if rx.sub('',v)!='':
+                            break
+                        dat += [float(vv) for vv in rx.findall(v)]
+                    if len(dat)==0:
                         dat = values
+                    elif len(dat)==1:
+                        dat = dat[0]
+                    else:
+                        dat = np.array(dat)
 
                     if len(key.strip())>0:
                         if len(subkey)==0:
-- 
2.43.0


From 571c7bce88a9469984b11423e895be000d9838cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:16 +0000
Subject: [PATCH 054/150] fix: write FLEX profile files

---
 weio/flex_profile_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..3a202e4 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -20,11 +20,12 @@ class ProfileSet():
 
     def toString(self,PREFIX=''):
         s =PREFIX+self.header+'\n'
+        s+=str(len(self.thickness))+'\n'
         s+=' '.join([str(t) for t in self.thickness])+'\n'
         s+=str(self.polars[0].shape[0])+'\n'
         for ph,t,polar in zip(self.polar_headers,self.thickness,self.polars):
             s+=ph+'\n'
-            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])
+            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])+'\n'
 #             s+=ph+'\n'
         return s
 
@@ -84,7 +85,7 @@ class FLEXProfileFile(File):
                 except:
                     raise WrongFormatError('Number of alpha values (integer) should be on line 4')
                 if header[0].lower().find('profile set')==0:
-                    header[0]=header[0][11:]
+                    header[0]=header[0][11:].strip()
                     bHasSets=True
                 else:
                     bHasSets=False
@@ -126,7 +127,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From e1770cae7f514879b53b0aafc21632b28dcf3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:46 +0000
Subject: [PATCH 055/150] fix: Bladed integer data (I*4) is read as integers

---
 weio/bladed_out_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..138834f 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -53,7 +53,9 @@ def read_bladed_sensor_file(sensorfile):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
             dat['Precision'] = np.float32
-            if temp[-1] == '8':
+            if temp.startswith('I'):
+                dat['Precision'] = np.int32
+            elif temp[-1] == '8':
                 dat['Precision'] = np.float64
 
         elif t_line.startswith('GENLAB'):
-- 
2.43.0


From 61c7faf0dbe28a76c7048442400cea953875d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:48 +0000
Subject: [PATCH 056/150] fix: use the access mode of the Bladed header to tell
 text from binary data

---
 weio/bladed_out_file.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 138834f..f88f31d 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -49,6 +49,10 @@ def read_bladed_sensor_file(sensorfile):
                 dat['nSections'] = 1
                 dat['SectionList'] = []
 
+        elif t_line.startswith('ACCESS'):
+            # S: sequential (ascii), D: direct (binary)
+            dat['Access'] = t_line[6:].strip().upper()
+
         elif t_line.startswith('FORMAT'):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
@@ -177,7 +181,12 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     # --- Read data file
     dataFilename = sensorFilename.replace('%','$')
 
-    if isBinary(dataFilename):            # it is binary            
+    if sensorInfo.get('Access') in ['S','D']:
+        binary = sensorInfo['Access']=='D'
+    else:
+        binary = isBinary(dataFilename)
+
+    if binary:            # it is binary            
 
         with open(os.path.join(dataFilename), 'rb') as fid_2:
             data = np.fromfile(fid_2, sensorInfo['Precision'])
-- 
2.43.0


From b2eab5ac5b58d2531d7a9f8f4d58c6cd6c4cd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 057/150] fix: Bladed text data: single steps are read, and
 data which does not fit the header is an error

---
 weio/bladed_out_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f88f31d..0ff500b 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -207,7 +207,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename).reshape((nMajor, nSensors),order='C')
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
@@ -226,6 +226,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
             except:
                 data = np.empty((nMajor, nSections, nSensors)) * np.nan
                 print('>>> Failed to read 3d ascii file: {}'.format(dataFilename))
+                raise
 
     return OrgData(data, **sensorInfo)
 
-- 
2.43.0


From 5856f8e09b960427c855c592d7818fe68e07a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:55 +0000
Subject: [PATCH 058/150] fix: Bladed files in folders (or with names) with %,
 [ or ]

---
 weio/bladed_out_file.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 0ff500b..d8f7901 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -17,6 +17,11 @@ from .file import File, WrongFormatError, BrokenFormatError, isBinary
 # --------------------------------------------------------------------------------}
 # --- Helper functions 
 # --------------------------------------------------------------------------------{
+def dataFilenameFromSensor(sensorFilename):
+    """ Name of the data file (.$II) given the name of the sensor file (.%II) """
+    basename, ext = os.path.splitext(sensorFilename)
+    return basename + ext.replace('%','$')
+
 def read_bladed_sensor_file(sensorfile):        
     """ 
     Extract relevant informations from a bladed sensor file
@@ -179,7 +184,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    dataFilename = dataFilenameFromSensor(sensorFilename)
 
     if sensorInfo.get('Access') in ['S','D']:
         binary = sensorInfo['Access']=='D'
@@ -285,10 +290,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename) + ext.replace('$','%') # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
@@ -307,7 +312,7 @@ class BladedFile(File):
 
         for i,filename in enumerate(files):
 
-            dataFilename = filename.replace('%','$')
+            dataFilename = dataFilenameFromSensor(filename)
             try:
                 # Call "Read_bladed_file" function to Read and store data:
                 data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
-- 
2.43.0


From b4c86b9f836439515ba91d161ffd1f505172abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 059/150] fix: empty Bladed files

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index d8f7901..a9cbdf1 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 4198ad62609e54d2ea3b3d747e12017f35e879ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:29 +0000
Subject: [PATCH 060/150] fix: linearization files: size of the ElastoDyn mass
 matrix of any turbine

---
 weio/fast_linearization_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..515af8d 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -146,7 +146,8 @@ class FASTLinearizationFile(File):
                         self['dUdy'] = readMat(f, nu, ny)
                     elif line.find('ED M:')>=0:
                         self['EDDOF'] = line[5:].split()
-                        self['M']     = readMat(f, 24, 24)
+                        nDOF          = len(self['EDDOF'])
+                        self['M']     = readMat(f, nDOF, nDOF)
 
     def toString(self):
         s=''
-- 
2.43.0


From 72d8d3ebdc0ca0e69cb65f6e4f768bc4f7bc1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:31 +0000
Subject: [PATCH 061/150] fix: writing a linearization file replaced it by an
 empty file

---
 weio/fast_linearization_file.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 515af8d..ad929bd 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -9,7 +9,7 @@ import re
 
 class FASTLinearizationFile(File):
     """ 
-    Read/write an OpenFAST linearization file. The object behaves like a dictionary.
+    Read an OpenFAST linearization file. The object behaves like a dictionary.
 
     Main keys
     ---------
@@ -17,7 +17,7 @@ class FASTLinearizationFile(File):
 
     Main methods
     ------------
-    - read, write, toDataFrame, keys, xdescr, ydescr, udescr
+    - read, toDataFrame, keys, xdescr, ydescr, udescr
 
     Examples
     --------
@@ -149,13 +149,8 @@ class FASTLinearizationFile(File):
                         nDOF          = len(self['EDDOF'])
                         self['M']     = readMat(f, nDOF, nDOF)
 
-    def toString(self):
-        s=''
-        return s
-
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of linearization files')
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From 5719d51911542bba222bc81a3f374669eda132ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:53 +0000
Subject: [PATCH 062/150] fix: summary file modes and JSON use the object they
 are called on, not the last file read

---
 weio/fast_summary_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..9f83976 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -154,9 +154,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +185,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements']
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From d3d6a62e0aa8027c594184016147afa41fec3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 063/150] fix: toJSON of a summary file leaves the element
 table of the object unchanged

---
 weio/fast_summary_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 9f83976..1d05bee 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -186,7 +186,7 @@ def readSubDynSum(self):
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
         Nodes    = data['Nodes']
-        Elements = data['Elements']
+        Elements = data['Elements'].copy() # reindexed below
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From 81f415c38c489e37ca3daa9aea94c24d26c91d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:58 +0000
Subject: [PATCH 064/150] fix: toJSON of a summary file gives the displacements
 in the order of the nodes

---
 weio/fast_summary_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 1d05bee..b4bb51c 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -183,7 +183,8 @@ def readSubDynSum(self):
 
         """
 
-        dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
+        # NOTE: sortDim should be None to respect the order of the nodes
+        dispGy, posGy, _, dispCB, posCB, _ = data.getModes(sortDim=None)
 
         Nodes    = data['Nodes']
         Elements = data['Elements'].copy() # reindexed below
-- 
2.43.0


From d23e0b210ba42eeab3c7009f40b93f9ea8873afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:01 +0000
Subject: [PATCH 065/150] fix: blanks before the colon are not part of the keys
 of a summary file

---
 weio/mini_yaml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 04269b9..2692024 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -70,11 +70,11 @@ def yaml_read(filename,dictIn=None):
             continue
         sp=l.split(':')
         if len(sp)==2 and len(sp[1].strip())==0:
-            key=sp[0]
+            key=sp[0].strip()
             array,i=readDashList(i)
             d[key]=array
         elif len(sp)==2:
-            key=sp[0]
+            key=sp[0].strip()
             val=sp[1]
             try:
                 d[key]=int(val)
-- 
2.43.0


From 8f6f93601eb6d91285ea7a7aa0e3b36338958701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:04 +0000
Subject: [PATCH 066/150] fix: error message of the yaml reader for unsupported
 lines

---
 weio/mini_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 2692024..0fb5319 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -84,7 +84,7 @@ def yaml_read(filename,dictIn=None):
                 except:
                     d[key]=val.strip()
         else:
-            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(len(sp)))
+            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(i, len(sp)))
     return d
 
 
-- 
2.43.0


From 967bef5117bb1c01fe2c679bcd44e4b28997f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:06 +0000
Subject: [PATCH 067/150] fix: graph of a summary file gives the Young and
 shear moduli of the elements

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index eccc069..30ebffd 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -266,7 +266,7 @@ def subdynSumToGraph(data):
         nodeIDs=[int(E[1]),int(E[2])]
         #  shear_[-]       Ixx_[m^4]       Iyy_[m^4]       Jzz_[m^4]          T0_[N]
         D = np.sqrt(E[7]/np.pi)*4 # <<< Approximation basedon area TODO use I as well
-        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[7], G=E[8], D=D)
+        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[9], G=E[10], D=D)
         elem.data['object']='cylinder'
         elem.data['color'] = type2Color[int(E[5])]
         Graph.addElement(elem)
-- 
2.43.0


From 7e93cd4272761e3de2e714ab94717c2d22e4c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:39 +0000
Subject: [PATCH 068/150] fix: empty BModes, ROSCO, RAAW and Cactus element
 files raise EmptyFileError

---
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 8263ecb095024bca3fb4f3843f916ab078199494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:40 +0000
Subject: [PATCH 069/150] fix: HAWCStab2 power and induction readers raise the
 errors they intend (WrongFormatError, BrokenFormatError)

---
 weio/hawcstab2_ind_file.py | 6 +++---
 weio/hawcstab2_pwr_file.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..07e899d 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -53,7 +53,7 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..4df2419 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -46,7 +46,7 @@ class HAWCStab2PwrFile(File):
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From 1776ea6581ccc956c38f47b59f184a1bb9fdc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:43 +0000
Subject: [PATCH 070/150] fix: HAWCStab2 power and induction files with one row
 are read

---
 weio/hawcstab2_ind_file.py | 2 +-
 weio/hawcstab2_pwr_file.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 07e899d..368eb57 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -48,7 +48,7 @@ class HAWCStab2IndFile(File):
 
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index 4df2419..353566c 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -41,7 +41,7 @@ class HAWCStab2PwrFile(File):
         self.colNames=cols
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
-- 
2.43.0


From c0d447ae7187eb6d7d5f1626cc44b610a8cdb139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:46 +0000
Subject: [PATCH 071/150] fix: FLEX out files of unknown version raise
 WrongFormatError

---
 weio/flex_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 75ddbfd..9da7d2f 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -111,6 +111,8 @@ def read_flex_res(filename, dtype=np.float32):
             tmin = np.fromfile(fid, 'f', 1)[0] # Dummy
             dt = np.fromfile(fid, 'f', 1)[0] # Dummy
             scale_factors = np.fromfile(fid, 'f', nSensors).astype(dtype)
+        else:
+            raise WrongFormatError('FLEX out file version {} not supported'.format(Version))
         # --- Reading Time series
         # FILE POSITION <<< fid.seek(8*nSensors + 48*2)
         data = np.fromfile(fid, 'int16').astype(dtype) #data = np.fromstring(fid.read(), 'int16').astype(dtype)
-- 
2.43.0


From a26f59140f26b8d55776e6cfa2c8829aa414d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:02 +0000
Subject: [PATCH 072/150] fix: yaml keys without a list at the end of a summary
 file

---
 weio/mini_yaml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 0fb5319..442eaa9 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -32,6 +32,7 @@ def yaml_read(filename,dictIn=None):
     def readDashList(iStart):
         """ """
         i=iStart
+        iEnd=iStart-1
         while i<len(lines):
             l = lines[i].strip()
             if len(l)==0:
@@ -44,6 +45,8 @@ def yaml_read(filename,dictIn=None):
                 iEnd=i-1
                 break
         n=iEnd-iStart+1
+        if n==0:
+            return np.zeros((0,0),int), iStart # no list after the key
         FirstElems = cleanComment(lines[iStart])[1:].replace(']','').replace('[','').split(',')
         FirstElems = np.array([v.strip() for v in FirstElems if len(v.strip())>0])
         try: 
-- 
2.43.0


From e74c2d61048d35e01fc116e1c1998c1e3d580ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 073/150] fix: HAWC2 binary data shorter than announced raises
 an error (one remaining value was repeated over the channel)

---
 weio/wetb/hawc2/Hawc2io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 3842da9..d82b150 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -246,7 +246,10 @@ class ReadHawc2(object):
             j = 0
             for i in ChVec:
                 fid.seek(i * self.NrSc * 2, 0)
-                data[:, j] = np.fromfile(fid, 'int16', self.NrSc) * self.ScaleFactor[i]
+                channel = np.fromfile(fid, 'int16', self.NrSc)
+                if len(channel)!=self.NrSc:
+                    raise Exception('File {}.dat is too short: channel {} has {} scans instead of {}'.format(self.FileName, i+1, len(channel), self.NrSc))
+                data[:, j] = channel * self.ScaleFactor[i]
                 j += 1
         return data
 ################################################################################
-- 
2.43.0


From 9d52308b60a52748609972d16c78cb667f08d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 074/150] fix: ROSCO performance files without pitch, TSR or
 tables raise the errors of the library

---
 weio/rosco_performance_file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..52138f0 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -131,6 +131,9 @@ def load_from_txt(txt_filename):
     pitch = None
     TSR   = None
     WS    = None
+    Cp    = None
+    Ct    = None
+    Cq    = None
 
     with open(txt_filename) as pfile:
         for iline, line in enumerate(pfile):
@@ -170,6 +173,11 @@ def load_from_txt(txt_filename):
             if pitch is None and iline>10:
                 raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch vector not found')
 
+        if pitch is None or TSR is None:
+            raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch or TSR vector not found')
+        if Cp is None or Ct is None or Cq is None:
+            raise BrokenFormatError('The CP, CT or CQ table is missing in ROSCO performance file {}'.format(txt_filename))
+
         return pitch, TSR, WS, Cp, Ct, Cq
 
 
-- 
2.43.0


From a70dca24a1a5a6270be26a251d7661c08b28628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:15 +0000
Subject: [PATCH 075/150] fix: modes of a summary file cut in a mode table
 raise an error instead of taking the missing rows as zero

---
 weio/fast_summary_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index b4bb51c..aaeefc1 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -167,10 +167,14 @@ def readSubDynSum(self):
         # CB modes
         PhiM      = data['PhiM']
         Phi_CB = np.vstack((np.zeros((len(DOF_B),PhiM.shape[1])),PhiM, np.zeros((len(DOF_F),PhiM.shape[1]))))
+        if Phi_CB.shape[0]!=len(DOF_K):
+            raise Exception('PhiM has {} rows instead of {} (internal DOFs)'.format(PhiM.shape[0], len(data['DOF___L'].ravel())))
         dispCB, posCB, INodesCB = data.NodesDisp(DOF_K, Phi_CB, maxDisp=maxDisp, sortDim=sortDim)
         # Guyan modes
         PhiR      = data['PhiR']
         Phi_Guyan = np.vstack((np.eye(len(DOF_B)),PhiR, np.zeros((len(DOF_F),PhiR.shape[1]))))
+        if Phi_Guyan.shape[0]!=len(DOF_K):
+            raise Exception('PhiR has {} rows instead of {} (internal DOFs)'.format(PhiR.shape[0], len(data['DOF___L'].ravel())))
         dispGy, posGy, INodesGy = data.NodesDisp(DOF_K, Phi_Guyan, maxDisp=maxDisp, sortDim=sortDim)
 
         return dispGy, posGy, INodesGy, dispCB, posCB, INodesCB
-- 
2.43.0


From c82f79c766ca4b03c8c905332a98f96be20dd338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:43 +0000
Subject: [PATCH 076/150] fix: Tecplot files can be read again by the same
 object

---
 weio/tecplot_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..38f3567 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -174,7 +174,7 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
-- 
2.43.0


From c6f6c80fe0562a8761ceee20c64f4dd498603ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 077/150] fix: FAST input files that cannot be written leave
 the target file as it is

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 2944580..9d7d95a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -757,8 +757,9 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
+        s = self.toString() # NOTE: might fail, the file should then not be touched
         with open(self.filename,'w', errors="surrogateescape") as f:
-            f.write(self.toString())
+            f.write(s)
 
     def toDataFrame(self):
         return self._toDataFrame()
-- 
2.43.0


From 9fb1f7241d3f716aab7398ae2b224cfd23d1b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:59 +0000
Subject: [PATCH 078/150] fix: CSV files with a line of units can be read again
 by the same object

---
 weio/csv_file.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index aef7339..d7bddfd 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -93,6 +93,18 @@ class CSVFile(File):
                 return True
             except:
                 return False
+        def readUnits(iStartLine):
+            """ Add units to the column names if they are on the line below, return index of the next line"""
+            first_line = readline(iStartLine) or ""
+            first_cols = split(first_line)
+            nPa    = first_line.count('(')+first_line.count('[')
+            if nPa>len(self.colNames)/2:
+                # that's definitely some units
+                if len(first_cols)==len(self.colNames):
+                    self.colNames=[c.strip()+'_'+u.strip() for c,u in zip(self.colNames, first_cols)]
+                iStartLine = iStartLine+1
+            return iStartLine
+
         # --- Safety
         if self.sep=='' or self.sep==' ':
             self.sep=r'\s+'
@@ -188,6 +200,8 @@ class CSVFile(File):
                 line=readline(self.colNamesLine)
                 self.colNames=split(line)
                 iStartLine = max(iStartLine,self.colNamesLine+1)
+                if iStartLine not in self.commentLines:
+                    iStartLine = readUnits(iStartLine)
         elif len(self.colNames)>0:
             pass
         elif not self.detectColumnNames:
@@ -202,17 +216,7 @@ class CSVFile(File):
                 self.colNamesLine = iStartLine
                 iStartLine = iStartLine+1
                 #  --- Now, maybe the user has put some units below
-                first_line = readline(iStartLine)
-                #print('>>> first line',first_line)
-                first_cols = split(first_line)
-                nFloat = sum([strIsFloat(s) for s in first_cols])
-                nPa    = first_line.count('(')+first_line.count('[')
-                #if nFloat == 0 or nPa>len(self.colNames)/2:
-                if nPa>len(self.colNames)/2:
-                    # that's definitely some units
-                    if len(first_cols)==len(self.colNames):
-                        self.colNames=[c.strip()+'_'+u.strip() for c,u in zip(self.colNames, first_cols)]
-                    iStartLine = iStartLine+1
+                iStartLine = readUnits(iStartLine)
             elif len(self.header)>0:
                 # Maybe the columns names are in the header
                 if self.sep is not None:
-- 
2.43.0


From 468fd2c88d8c7da24f6b79d2e9537d19a30dbc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:34 +0000
Subject: [PATCH 079/150] fix: Excel files are closed after reading

---
 weio/excel_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..619c715 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -29,9 +29,9 @@ class ExcelFile(File):
         except:
             xls = pd.ExcelFile(self.filename)
         dfs = {}
-        for sheet_name in xls.sheet_names:
-            # Reading sheet
-            df = xls.parse(sheet_name, header=None)
+        with xls:
+            sheets = [(sheet_name, xls.parse(sheet_name, header=None)) for sheet_name in xls.sheet_names]
+        for sheet_name, df in sheets:
             # TODO detect sub tables
             # Dropping empty rows and cols
             df.dropna(how='all',axis=0,inplace=True)
-- 
2.43.0


From 68a0c49d2f4b9d7d1fcb575c2c9ce8f686196357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 080/150] fix: FLEX documentation files can be read again by
 the same object

---
 weio/flex_doc_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 4c7ae88..bcf6264 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -26,6 +26,7 @@ class FLEXDocFile(File):
             if line1.find('#Program')!=0:
                 raise WrongFormatError()
             lines=f.read().splitlines()+[line1]
+        self.clear() # removing data from a previous read
 
         ArraysHeader=[
         '#Blade_ShapeFunction_DOF1_Shape',
-- 
2.43.0


From c2a564389d7dcb69d40fa91589d18442a3db2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 081/150] fix: VTK files can be read again by the same object,
 and written without file name

---
 weio/vtk_file.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..1a0c605 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -57,6 +57,13 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._reset()
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+    def _reset(self):
+        """ initialize data, removing data from a previous read """
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -81,10 +88,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
 
     def read(self, filename=None):
         """ read a VTK file """
@@ -97,7 +100,8 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        self._reset()
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
@@ -170,7 +174,7 @@ class VTKFile(File):
                 if len(values.shape) == 2 and values.shape[1] == 2:
                     data[k] = pad(data[k])
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
-- 
2.43.0


From cfa2381102b36694f31835742df1d6c25dbb32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 082/150] fix: writing a VTK file does not change the data of
 the object

---
 weio/vtk_file.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 1a0c605..ee8f351 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -164,15 +164,12 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        def pad2(values):
+            # NOTE: the data of the object is not changed
+            return pad(values) if len(values.shape) == 2 and values.shape[1] == 2 else values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        point_data = {name: pad2(values) for name, values in self.point_data.items()}
+        cell_data  = {name: [pad2(values) for values in data] for name, data in self.cell_data.items()}
 
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
@@ -185,16 +182,16 @@ class VTKFile(File):
             _write_cells(f, self.cells, binary)
 
             # write point data
-            if self.point_data:
+            if point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
-            if self.cell_data:
+            if cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From 9f9597f0bf6e0bf1ca7dd8b191b86b0af4536bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 083/150] fix: converting element outputs to a dataframe does
 not rename the columns of the object

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 0c144d4..47f21d1 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From e92a0c1d565df0daf1eca9e9938eec4a1374278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:12 +0000
Subject: [PATCH 084/150] fix: element outputs can be written

---
 weio/fast_output_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 47f21d1..951b9ba 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -113,10 +113,12 @@ class FASTOutputFile(File):
         else:
             # ascii output
             with open(self.filename,'w') as f:
+                if os.path.splitext(self.filename.lower())[1]=='.elm':
+                    f.write('This file was generated by weio.\n') # NOTE: names are on the second line for element files
                 f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
                 f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
                 # TODO better..
-                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in self.data]))
+                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)]))
 
     def _toDataFrame(self):
         if self.info['attribute_units'] is not None:
-- 
2.43.0


From 415b5fd4d7f3dca90cbb1efb7d44f4c2cd296622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:45 +0000
Subject: [PATCH 085/150] fix: CSV files separated by tabs, with blanks in the
 names, can be read again by the same object

---
 weio/csv_file.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index d7bddfd..ce22dbb 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -244,14 +244,12 @@ class CSVFile(File):
         if (self.commentLines is not None) and len(self.commentLines)>0:
             skiprows = skiprows + self.commentLines
         skiprows =list(sorted(set(skiprows)))
-        if self.sep is not None:
-            if self.sep=='\t':
-                self.sep=r'\s+'
+        sep = r'\s+' if self.sep=='\t' else self.sep
         #print(skiprows)
         try:
 #             self.data = pd.read_csv(self.filename,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar,encoding=self.encoding)
             with open(self.filename,'r',encoding=self.encoding) as f:
-                self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar)
+                self.data = pd.read_csv(f,sep=sep,skiprows=skiprows,header=None,comment=self.commentChar)
         except pd.errors.ParserError as e:
             raise WrongFormatError('CSV File {}: '.format(self.filename)+e.args[0])
 
-- 
2.43.0


From 7779939cae0eed4f597d712283ee8607fa0f224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:32 +0000
Subject: [PATCH 086/150] fix: ROSCO performance files can be written

---
 weio/rosco_performance_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 52138f0..776bbcc 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+from datetime import datetime
 
 try:
     from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
@@ -193,10 +194,14 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
         txt_filename: str, optional
                         Desired output filename to print rotor performance data. Default is Cp_Ct_Cq.txt
     '''
-    file = open(txt_filename,'w')
+    with open(txt_filename,'w') as file:
+        _write_rotor_performance(file, pitch, TSR, CP, CT, CQ, WS=WS, TurbineName=TurbineName)
+
+def _write_rotor_performance(file, pitch, TSR, CP, CT, CQ, WS=None, TurbineName=''):
+    """ see write_rotor_performance, file is open for writing"""
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
+    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.now().strftime('%b-%d-%y')))
 
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
@@ -234,7 +239,6 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
             file.write('{0:.6f}   '.format(CQ[i,j]))
         file.write('\n')
     file.write('\n')
-    file.close()
 
 
 
-- 
2.43.0


From f17836ec85db5c6e2c5c2422ca097a34c38f942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:35 +0000
Subject: [PATCH 087/150] fix: binary FAST outputs that cannot be written leave
 the target file as it is

---
 weio/fast_output_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 951b9ba..6c39571 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -446,6 +446,11 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     ColScl  = np.single(int16Rng/ranges)
     ColOff  = np.single(int16Min - np.single(mins)*ColScl)
     
+    # Names and units are stored using 10 characters
+    for s in chanNames+list(chanUnits):
+        if len(s)>10:
+            raise Exception('Names and units cannot exceed 10 characters in binary FAST output files: `{}`'.format(s))
+
     #Just available for fileID 
     if fileID != 2:
         print("current version just works with FileID = 2")
-- 
2.43.0


From b12a8c524c25232b1578bfedaffa0b0d79bf1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:27 +0000
Subject: [PATCH 088/150] fix: TurbSim files with one tower point can be
 printed

---
 weio/turbsim_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 3ce2253..45fa196 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -567,7 +567,8 @@ class TurbSimFile(File):
 
         # Tower
         if 'zTwr' in self.keys() and len(self['zTwr'])>0:
-            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['zTwr'][1]-self['zTwr'][0],len(self['zTwr']))
+            dz = self['zTwr'][1]-self['zTwr'][0] if len(self['zTwr'])>1 else None # NOTE: there might be only one tower point
+            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],dz,len(self['zTwr']))
         if 'uTwr' in self.keys() and self['uTwr'].shape[2]>0:
             s+=' - uTwr: ({} x {} x {} ) \n'.format(*(self['uTwr'].shape))
             ux,uy,uz=self['uTwr'][0], self['uTwr'][1], self['uTwr'][2]
-- 
2.43.0


From 7e05276f006aa4397e1e7dda38a227caaff689aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:12 +0000
Subject: [PATCH 089/150] fix: VTK lookup tables and color scalars are skipped
 entirely, and do not change the size of the data that follow

---
 weio/vtk_file.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index ee8f351..4fe8385 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -770,18 +770,24 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        numpy.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # NOTE: not changing info.num_items from active POINT/CELL_DATA
+        num_entries = int(info.split[2])
+        if info.is_ascii:
+            numpy.fromfile(f, count=num_entries * 4, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_entries * 4, dtype=numpy.ubyte)
+            f.readline()
+        # rgba = data.reshape((num_entries, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = numpy.ubyte
         if info.is_ascii:
-            dtype = float
-        numpy.fromfile(f, count=num_items * nValues, dtype=dtype)
+            numpy.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_items * nValues, dtype=numpy.ubyte)
+            f.readline()
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From 4b16cdbc2805b1ca53b17f2a271e8d601d61b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 090/150] fix: VTK structured points with arrays of one value
 or tensors can be read

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 4fe8385..94a12be 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -141,7 +141,7 @@ class VTKFile(File):
             # We provide point_data_grid, corresponds to point_data but reshaped
             for k,PD in self.point_data.items():
                 # NOTE: tested foe len(y)=1, len(z)=1
-                self.point_data_grid[k]=PD.reshape(len(self.xp_grid), len(self.yp_grid), len(self.zp_grid),PD.shape[1], order='F')
+                self.point_data_grid[k]=PD.reshape(len(self.xp_grid), len(self.yp_grid), len(self.zp_grid), *PD.shape[1:], order='F')
 
 
     def write(self, filename=None, binary=True):
-- 
2.43.0


From f8b4929b586252183855259634f1f69180aa633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:18 +0000
Subject: [PATCH 091/150] fix: tensors are written with all their components in
 VTK files

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 94a12be..78d0bbf 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1291,7 +1291,7 @@ def _write_field_data(f, data, binary):
             num_components = 1
         else:
             num_tuples = values.shape[0]
-            num_components = values.shape[1]
+            num_components = int(numpy.prod(values.shape[1:]))
 
         if " " in name:
             raise WriteError("VTK doesn't support spaces in field names", name)
-- 
2.43.0


From 58fb9e5f8737ce33d1a1b0fef41dc4772c853b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 092/150] fix: VTK files cut short are refused instead of
 giving incomplete arrays

---
 weio/vtk_file.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 78d0bbf..a444271 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -829,6 +829,8 @@ def _read_subsection(f, info):
 
 
 def _check_mesh(info):
+    if info.dataset["type"] in ["UNSTRUCTURED_GRID", "STRUCTURED_GRID"] and info.points is None:
+        raise ReadError("Required section POINTS not found.")
     if info.dataset["type"] == "UNSTRUCTURED_GRID":
         if info.c is None:
             raise ReadError("Required section CELLS not found.")
@@ -930,15 +932,23 @@ def _generate_points(axis):
     return points
 
 
+def _fromfile(f, count, **kwargs):
+    """ Read `count` values, raise an error if there are fewer values in the file"""
+    data = numpy.fromfile(f, count=count, **kwargs)
+    if len(data)!=count:
+        raise ReadError("Unexpected end of VTK data: {} values read instead of {}".format(len(data), count))
+    return data
+
+
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = numpy.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = _fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = numpy.fromfile(f, count=num_points, dtype=dtype)
+        coords = _fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -948,12 +958,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = numpy.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = _fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = numpy.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = _fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -962,10 +972,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_cells(f, is_ascii, num_items, dtype=numpy.dtype("int32")):
     if is_ascii:
-        c = numpy.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = _fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = numpy.fromfile(f, count=num_items, dtype=dtype)
+        c = _fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -974,10 +984,10 @@ def _read_cells(f, is_ascii, num_items, dtype=numpy.dtype("int32")):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = numpy.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = _fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = numpy.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = _fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode("utf-8")
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -1004,12 +1014,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = numpy.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = _fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = numpy.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = _fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -1028,12 +1038,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = numpy.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = _fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = numpy.fromfile(f, count=k * num_data, dtype=dtype)
+        data = _fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode("utf-8")
         if line != "\n":
             raise ReadError()
@@ -1057,12 +1067,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = numpy.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = numpy.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = _fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://www.vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = numpy.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = _fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode("utf-8")
             if line != "\n":
                 raise ReadError()
-- 
2.43.0


From 3a0aa7a4694a7dcaabb4278e547f84fd91bd9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:24 +0000
Subject: [PATCH 093/150] fix: TDMS files can be read with version 1 of nptdms

---
 weio/tdms_file.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index d05e1a9..a1bc4be 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -18,15 +18,12 @@ class TDMSFile(File):
         except:
             raise Exception('Install the library nptdms to read this file')
 
-        fh = TdmsFile(self.filename, read_metadata_only=False)
-        channels_address = list(fh.objects.keys())
-        channels_address = [ s.replace("'",'') for s in channels_address]
-        channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+        fh = TdmsFile.read(self.filename)
+        channels = [channel for group in fh.groups() for channel in group.channels()]
         # --- Setting up list of signals and times
         signals=[]
         times=[]
-        for i,ck in enumerate(channel_keys):
-            channel = fh.object(ck[0],ck[1])
+        for channel in channels:
             signals.append(channel.data)
             times.append  (channel.time_track())
 
@@ -47,7 +44,7 @@ class TDMSFile(File):
         time =times[0]
         signals = [time]+signals
         M = np.column_stack(signals)
-        colnames = ['Time_[s]'] + [ck[1] for ck in channel_keys]
+        colnames = ['Time_[s]'] + [channel.name for channel in channels]
         self['data'] =  pd.DataFrame(data = M, columns=colnames)
 
 #     def toString(self):
-- 
2.43.0


From 1a99d58ea3e2a0deca902fa8cfa008611df0540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:40 +0000
Subject: [PATCH 094/150] fix: Excel files can be written without xlsxwriter
 and with version 2 of pandas

---
 weio/excel_file.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index 619c715..f75a0d1 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,12 +48,12 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
-        # Convert the dataframe to an XlsxWriter Excel object.
-        for k,_ in self.data.items():
-            df = self.data[k]
-            df.to_excel(writer, sheet_name=k, index=False)
+        # Create a Pandas Excel writer (using the engine available).
+        with pd.ExcelWriter(self.filename) as writer:
+            # Convert the dataframe to an Excel object.
+            for k,_ in self.data.items():
+                df = self.data[k]
+                df.to_excel(writer, sheet_name=k, index=False)
         # # Account info columns (set size)
         # worksheet.set_column('B:D', 20)
         # # Total formatting
@@ -72,8 +72,6 @@ class ExcelFile(File):
         #worksheet.conditional_format(color_range, {'type': 'bottom',
         #                                           'value': '5',
         #                                           'format': format1})
-        # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From b5bc3ecb1637b5bd37bc4d4bd103e9df109c9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:44 +0000
Subject: [PATCH 095/150] fix: NetCDF files are closed after reading

---
 weio/netcdf_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/netcdf_file.py b/weio/netcdf_file.py
index e54e412..d90de9f 100644
--- a/weio/netcdf_file.py
+++ b/weio/netcdf_file.py
@@ -31,7 +31,8 @@ class NetCDFFile(File):
         except:
             raise Exception('Python module `xarray` not installed')
 
-        self.data=xr.open_dataset(self.filename)
+        with xr.open_dataset(self.filename) as ds:
+            self.data=ds.load()
 
     def _write(self):
         self.data.to_netcdf(self.filename)
-- 
2.43.0


From 9291810183f20b6af48dcd505bd3e66a754a9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:47 +0000
Subject: [PATCH 096/150] fix: time series of user points in TurbSim input are
 labelled point by point

---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..cb7727f 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -51,7 +51,7 @@ class TurbSimTSFile(File):
 
     def columns(self):
         Comp=['u','v','w']
-        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ic in np.arange(self['nComp']) for ip in np.arange(len(self['Points']))]
+        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ip in np.arange(len(self['Points'])) for ic in np.arange(self['nComp'])]
 
     def units(self):
         nPoints = self['Points'].shape[0]
-- 
2.43.0


From f278d490b6dc780d4e6f9a5605d11d7f75182cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:09 +0000
Subject: [PATCH 097/150] fix: Tecplot files with one row or one column can be
 read

---
 weio/tecplot_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 38f3567..75316f1 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -134,7 +134,7 @@ def read_tecplot(filename, dict_out={}):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
-- 
2.43.0


From 0c71a2236c28c66bb5ca8960127f57629baf43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:37 +0000
Subject: [PATCH 098/150] fix: Tecplot files that were read are written with
 their title, data sets and all digits, one line per row

---
 weio/tecplot_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 75316f1..d47afe6 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -45,7 +45,7 @@ def _process_merged_line(line, section, dict_out):
     n = len(section)
     line = line[n:].strip()
     if section=='title':
-        dict_out[section]=line
+        dict_out[section]=line.lstrip('=').strip()
     elif section=='variables':
         line = line.replace('=','').strip()
         line = line.replace(',',' ').strip()
@@ -195,11 +195,17 @@ class TecplotFile(File):
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
             for k in Keywords[2:]:
                 if k in self.keys():
-                    f.write('{} = {}\n'.format(k,self[k]))
+                    if isinstance(self[k], dict):
+                        for key, value in self[k].items():
+                            f.write('{} {}="{}"\n'.format(k.upper(), key, value))
+                    else:
+                        f.write('{} {}\n'.format(k.upper(), self[k]))
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision)
+                    # NOTE: one line per row, all digits are written if no precision is provided
+                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision, max_line_width=np.inf,
+                            threshold=np.inf, floatmode='unique' if precision is None else None)
                     f.write(srow[1:-1]+'\n')
 
 
-- 
2.43.0


From 8b7ae18a327452d31eb9b7617b31c3685e950278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 099/150] fix: deterministic wind files without header lines
 are written without a line of column names

---
 weio/fast_wind_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index b642d89..5a5aec7 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -35,6 +35,8 @@ class FASTWndFile(CSVFile):
         header+=['!Time  Wind     Wind	Vert.       Horiz.      Vert.       LinV        Gust']
         header+=['!      Speed    Dir    Speed       Shear		Shear       Shear       Speed']
 
+        self.defaultHeader=header
+
         super(FASTWndFile, self).__init__(sep=' ',commentChar='!',colNames=Cols, header=header, *args, **kwargs)
 
     def _read(self, *args, **kwargs):
@@ -43,6 +45,9 @@ class FASTWndFile(CSVFile):
         super(FASTWndFile, self)._read(*args, **kwargs)
 
     def _write(self, *args, **kwargs):
+        # NOTE: without header, the column names would be written, which are not part of the format
+        if len(self.header)==0:
+            self.header=list(self.defaultHeader)
         super(FASTWndFile, self)._write(*args, **kwargs)
 
 
-- 
2.43.0


From 74a3a1914b4dd3bbdbbb1198e39ff71b65b2edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:16 +0000
Subject: [PATCH 100/150] fix: text files with a tab in their first line are
 not taken for binary files

---
 weio/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/file.py b/weio/file.py
index 8e192d4..b1c9fe9 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -171,7 +171,7 @@ def isBinary(filename):
             # then look for weird characters
             for c in l:
                 code = ord(c)
-                if code<10 or (code>14 and code<31):
+                if code<9 or (code>14 and code<31):
                     return True
             return False
         except UnicodeDecodeError:
-- 
2.43.0


From 263502910effd16aa4f03deb4a50e058db8daac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 101/150] fix: FAST decks are written with the name of the
 ServoDyn file in ServoFile

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..e63f556 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -371,7 +371,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0


From 6bae572c0e6895a489d9f60f43a80725e12eb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:31 +0000
Subject: [PATCH 102/150] fix: the SubDyn file of a FAST deck is read under its
 own key

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index e63f556..db2e66f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -275,7 +275,7 @@ class FASTInputDeck(dict):
 
             # SubDyn
             if self.fst_vt['Fst']['CompSub'] == 1:
-                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'HD')
+                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'SD')
 
             # Mooring
             if self.fst_vt['Fst']['CompMooring']==1:
-- 
2.43.0


From f8d2d11a024e95ec6a4fb707b96940919da59411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 103/150] fix: FAST decks with AeroDyn 14, or with absolute
 paths to AeroDyn sub-files, can be read and written

---
 weio/fast_input_deck.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index db2e66f..f6a2b09 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -97,34 +97,34 @@ class FASTInputDeck(dict):
                 self.readlist = ['Fst','ED','AD','BD','BDbld','EDtwr','EDbld','ADbld','AF','AC','IW','HD','SrvD','SD','MD']
 
         if filename is None:
-            filename = self.fst_vt['Fst']['AeroFile']
-            baseDir  = os.path.dirname(self.fst_vt['Fst']['AeroFile'])
-        else:
-            baseDir  = os.path.dirname(filename)
+            filename = self.fst_vt['Fst']['AeroFile'].replace('"','')
+        baseDir  = os.path.dirname(filename)
 
         self.verbose  = verbose
 
         self.fst_vt[key] = self._read(filename,'AD')
 
         if self.fst_vt[key] is not None:
-            # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
-            self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
+            # Blades (AeroDyn 14 has no blade file)
+            if key=='AeroDyn15':
+                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
+                self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
             #    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['AeroFile']), self.fst_vt[key]['ADBlFile({})'.format(i+1)])
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
-            for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
-                af_filename = os.path.join(baseDir,af_filename).replace('"','')
+            self.fst_vt['ac_data']=[]
+            for afi, af_filename in enumerate(self.fst_vt[key]['AFNames' if key=='AeroDyn15' else 'FoilNm']):
+                af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
                 except:
                     polar=None
                     print('[FAIL] reading polar {}'.format(af_filename))
                 self.fst_vt['af_data'].append(polar)
-                if polar is not None:
+                if polar is not None and 'NumCoords' in polar.keys():
                     coordFile = polar['NumCoords']
                     if isinstance(coordFile,str):
                         coordFile = coordFile.replace('"','')
@@ -406,7 +406,7 @@ class FASTInputDeck(dict):
             self.fst_vt['InflowWind'].write(filename_IW)
 
         if fst['CompAero']>0:
-            self.fst_vt['AeroDyn15'].write(filename_AD)
+            self.fst_vt['AeroDyn14' if fst['CompAero']==1 else 'AeroDyn15'].write(filename_AD)
             # TODO other files
 
         if fst['CompServo']>0:
-- 
2.43.0


From 339b58553cdceeb48c2c6fdf8e90ef4a69973b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 104/150] fix: reading a FAST deck again with the same object
 does not keep files of the previous one

---
 weio/fast_input_deck.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index f6a2b09..2b328cf 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -221,6 +221,14 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        # Forget what was read before
+        for k in self.fst_vt.keys():
+            if k!='description':
+                self.fst_vt[k] = [] if k in ['af_data','ac_data'] else None
+        self.inputfiles = {}
+        self.ADversion  = ''
+        self.AD         = None
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
@@ -294,8 +302,6 @@ class FASTInputDeck(dict):
         # --- Backward compatibility
         self.fst = self.fst_vt['Fst']
         self.ED  = self.fst_vt['ElastoDyn']
-        if not hasattr(self,'AD'):
-            self.AD = None
         if self.AD is not None:
             self.AD.Bld1 = self.fst_vt['AeroDynBlade']
             self.AD.AF  = self.fst_vt['af_data']
-- 
2.43.0


From a8642171887d529fe28c91fe65c19f194e9a45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:57 +0000
Subject: [PATCH 105/150] fix: FAST decks written to a directory other than the
 one of the main file refer to their files

---
 weio/fast_input_deck.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 2b328cf..92d5eac 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -371,17 +371,21 @@ class FASTInputDeck(dict):
         filename_BD_bld = os.path.join(directory,prefix+'BD_bld'+suffix+'.dat')  if fst['CompElast']>0   else 'none'
         # TODO AD Profiles and OLAF
 
-        fst['EDFile']       = '"' + os.path.basename(filename_ED) + '"'
-        fst['BDBldFile(1)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(2)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
-        fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
-        fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
-        fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
-        fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-        fst['IceFile']      = '"' + os.path.basename(filename_Ice)+ '"'
+        # NOTE: the main file refers to the other files relatively to its own location
+        def ref(f):
+            return '"' + (f if f=='none' else os.path.relpath(f, os.path.dirname(filename) or '.')) + '"'
+
+        fst['EDFile']       = ref(filename_ED)
+        fst['BDBldFile(1)'] = ref(filename_BD)
+        fst['BDBldFile(2)'] = ref(filename_BD)
+        fst['BDBldFile(3)'] = ref(filename_BD)
+        fst['InflowFile']   = ref(filename_IW)
+        fst['AeroFile']     = ref(filename_AD)
+        fst['ServoFile']    = ref(filename_SvD)
+        fst['HydroFile']    = ref(filename_HD)
+        fst['SubFile']      = ref(filename_SD)
+        fst['MooringFile']  = ref(filename_MD)
+        fst['IceFile']      = ref(filename_Ice)
         fst.write(filename)
 
 
-- 
2.43.0


From 2320b6192f34e69ab1ce944849f112f93cbe09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:45 +0000
Subject: [PATCH 106/150] fix: the BeamDyn blade file of a FAST deck can be
 given by an absolute path

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 92d5eac..6962a94 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -296,7 +296,7 @@ class FASTInputDeck(dict):
                 self.fst_vt['BeamDyn'] = self._read(self.fst_vt['Fst']['BDBldFile(1)'],'BD')
                 if self.fst_vt['BeamDyn'] is not None:
                     # Blades
-                    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['BDBldFile(1)']), self.fst_vt['BeamDyn']['BldFile'])
+                    bld_file = self.BD_bld_relpath
                     self.fst_vt['BeamDynBlade']= self._read(bld_file,'BDbld')
 
         # --- Backward compatibility
-- 
2.43.0


From 832f96ffd278218edbb1d0ab4daf42668a926635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:33 +0000
Subject: [PATCH 107/150] fix: connectivity of graphs: element IDs of nodes,
 updates when nodes or elements are added; miscellaneous properties

---
 weio/tools/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..c3c859f 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -168,13 +168,14 @@ class GraphModel(object):
         self.Modes   = []
         self.Motions = []
         # Optimization variables
-        self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of ElementID
+        self._nodeIDs2ElementIDs = {} # dictionary with key NodeID and value list of ElementID
         self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of elements
         self._elementIDs2NodeIDs = {} # dictionary with key ElemID and value list of nodes IDs
         self._connectivity =[]# 
 
     def addNode(self,node):
         self.Nodes.append(node)
+        self.connecticityHasChanged()
 
     def addElement(self,elem):
         # Giving nodes to element if these were not provided
@@ -183,6 +184,7 @@ class GraphModel(object):
         if elem.propIDs is not None:
             elem.nodeProps=[self.getNodeProperty(elem.propset, i) for i in elem.propIDs]
         self.Elements.append(elem)
+        self.connecticityHasChanged()
 
     # --- Getters
     def getNode(self, nodeID):
@@ -286,7 +288,7 @@ class GraphModel(object):
         self.ElemPropertySets[setname].append(prop)
 
     def addMiscProperty(self, setname, prop):
-        if not isinstance(prop, ElemProperty):
+        if not isinstance(prop, Property):
             print(type(prop))
             raise Exception('Property needs to inherit from Property')
         self.MiscPropertySets[setname].append(prop)
@@ -330,7 +332,7 @@ class GraphModel(object):
         s+='\n'.join(str(m) for m in self.Modes)
         s+='\n- Motions ({}):'.format(len(self.Motions))
         for m in self.Motions:
-            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isintance(v,np.ndarray)})
+            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isinstance(v,np.ndarray)})
         return s
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 312d34725038e5c02a68d1f4936d6d2106b2f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:36 +0000
Subject: [PATCH 108/150] fix: graphs without element properties can be divided
 and updated, and nodes can be sorted by their data

---
 weio/tools/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index c3c859f..5f3f6ae 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -396,7 +396,8 @@ class GraphModel(object):
             e.nodes=[self.getNode(i) for i in e.nodeIDs]
 
         for e in self.Elements:
-            e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
+            if e.propIDs is not None:
+                e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
 
         # Potentially call nodeIDs2ElementIDs etc
 
@@ -441,12 +442,13 @@ class GraphModel(object):
             for i in range(1,nPerElement):
                 maxElemId+=1
                 elem_dict = e.data.copy()
+                propIDs=None
+                propset=e.propset
                 # Creating extra properties if necessary
                 if e.propIDs is not None:
-                    if all(e.propIDs==e.propIDs[0]):
+                    if all(ID==e.propIDs[0] for ID in e.propIDs):
                         # No need to create a new property
                         propIDs=e.propIDs
-                        propset=e.propset
                     else:
                         raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
                 elem= Element(maxElemId, [subNodes[i].ID, subNodes[i+1].ID], propset=propset, propIDs=propIDs, **elem_dict )
@@ -473,7 +475,7 @@ class GraphModel(object):
         elif key=='ID':
             values=[n.ID for n in self.Nodes]
         else:
-            values=[n[key] for n in self.Nodes]
+            values=[n.data[key] for n in self.Nodes]
         I= np.argsort(values)
         self.Nodes=[self.Nodes[i] for i in I]
 
-- 
2.43.0


From d2374862efb40c27351d2f6f21c47054cef8e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:38 +0000
Subject: [PATCH 109/150] fix: graph of HydroDyn files with depth or member
 coefficients, or marine growth

---
 weio/fast_input_file_graph.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 30ebffd..0480297 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -170,14 +170,24 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('DepthCoefs')
         for ip,P in enumerate(hd['DpthProp']):
             # Dpth      DpthCd   DpthCdMG   DpthCa   DpthCaMG       DpthCp   DpthCpMG   DpthAxCd   DpthAxCdMG   DpthAxCa   DpthAxCaMG   DpthAxCp   DpthAxCpMG
-            prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            if len(P)==13:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCd=P[7], AxCdMG=P[8], AxCa=P[9], AxCaMG=P[10], AxCp=P[11], AxCpMG=P[12])
+            elif len(P)==11:
+                prop= Property(ID=ip+1, Dpth=P[0], Cd=P[1], CdMG=P[2], Ca=P[3], CaMG=P[4], Cp=P[5], CpMG=P[6], AxCa=P[7], AxCaMG=P[8], AxCp=P[9], AxCpMG=P[10])
+            else:
+                raise NotImplementedError()
             Graph.addMiscProperty('DepthCoefs',prop)
     if 'MemberProp' in hd.keys():
         # Member-based hydro coefficinet
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[14], AxCd2=P[15], axCdMG1=P[16], axCdMG2=P[17], AxCa1=P[18], AxCa2=P[19], AxCaMG1=P[20], AxCaMG2=P[21], AxCp1=P[22], AxCp2=P[23])
+            keys = ['Cd','CdMG','Ca','CaMG','Cp','CpMG','AxCd','AxCdMG','AxCa','AxCaMG','AxCp','AxCpMG']
+            if len(P)==21:
+                keys = [k for k in keys if k not in ['AxCd','AxCdMG']]
+            elif len(P)!=25:
+                raise NotImplementedError()
+            prop = Property(ID=ip+1, MemberID=P[0], **{k+n:P[1+2*i+j] for i,k in enumerate(keys) for j,n in enumerate(['1','2'])})
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
@@ -196,7 +206,7 @@ def hydrodynToGraph(hd):
             # MGDpth     MGThck       MGDens
             # (m)        (m)         (kg/m^3)
             prop = Property(ID=ip+1, MGDpth=P[0], MGThck=P[1],  MGDens=P[2])
-            Graph.addMiscProperty('FillGroups',prop)
+            Graph.addMiscProperty('MG',prop)
 
     # --- Nodes
     Nodes     = hd['Joints']
-- 
2.43.0


From fe086994d9991e27067a294c6fa6b04eeba598c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 110/150] fix: CSV comment blocks of more than 100 lines are
 recognised completely

---
 weio/csv_file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index ce22dbb..1d38f39 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -137,13 +137,11 @@ class CSVFile(File):
         elif self.commentChar is not None:
             # we detect the comments lines that start with comment char
             with open(self.filename,'r',encoding=self.encoding) as f:
-                n=0
-                while n<100:
+                while True:
                     l = f.readline().strip()
                     if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                         break
                     self.header.append(l.strip())
-                    n+=1
             self.commentLines=list(range(len(self.header)))
         else:
             # We still believe that some characters are comments
@@ -153,13 +151,11 @@ class CSVFile(File):
                 self.commentChar=line[0]
                 # Nasty copy paste from above
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    n=0
-                    while n<100:
+                    while True:
                         l = f.readline().strip()
                         if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                             break
                         self.header.append(l.strip())
-                        n+=1
 
         iStartLine = len(self.header)
 
-- 
2.43.0


From 56323f700395a3d122eff063d139b6f9c048bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:20 +0000
Subject: [PATCH 111/150] fix: files are prepared in memory before the target
 is opened: a write that fails leaves the existing file as it was (FAST,
 HAWC2, CSV, wind boxes, VTK, Tecplot, ROSCO, Excel, FLEX profiles)

---
 weio/csv_file.py               |  8 ++++----
 weio/excel_file.py             | 11 +++++++++--
 weio/fast_input_file.py        | 11 +++++++----
 weio/fast_output_file.py       | 23 ++++++++++++++---------
 weio/flex_profile_file.py      |  3 ++-
 weio/hawc2_dat_file.py         | 13 ++++++++++---
 weio/mannbox_file.py           |  8 +++++---
 weio/rosco_performance_file.py |  7 +++++--
 weio/tecplot_file.py           |  7 ++++++-
 weio/turbsim_file.py           | 11 ++++++-----
 weio/turbsim_ts_file.py        |  3 ++-
 weio/vtk_file.py               |  9 ++++++++-
 weio/wetb/hawc2/ae_file.py     |  3 ++-
 weio/wetb/hawc2/htc_file.py    |  4 +++-
 weio/wetb/hawc2/pc_file.py     |  3 ++-
 weio/wetb/hawc2/st_file.py     | 19 ++++++++++---------
 16 files changed, 95 insertions(+), 48 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 1d38f39..60b7fb7 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -269,11 +269,11 @@ class CSVFile(File):
             # Column names need to be written unless they are already part of the header
             headerLines = self.commentLines if len(self.commentLines)>0 else range(len(self.header))
             writeNames = self.colNamesLine is not None and self.colNamesLine>=0 and self.colNamesLine not in headerLines
-            with open(self.filename, 'w', encoding='utf-8', newline='\n') as f:
-                f.write('\n'.join(self.header)+'\n')
-                self.data.to_csv(f, sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
+            s = '\n'.join(self.header)+'\n' + self.data.to_csv(sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
         else:
-            self.data.to_csv(self.filename, sep=self.sep, index=False, na_rep=na_rep)
+            s = self.data.to_csv(sep=self.sep, index=False, na_rep=na_rep)
+        with open(self.filename, 'w', encoding='utf-8', newline='') as f:
+            f.write(s)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
diff --git a/weio/excel_file.py b/weio/excel_file.py
index f75a0d1..bf7ff76 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -1,6 +1,7 @@
 from __future__ import division,unicode_literals,print_function,absolute_import
 from builtins import map, range, chr, str
-from io import open
+from io import open, BytesIO
+import os
 from future import standard_library
 standard_library.install_aliases()
 
@@ -49,11 +50,17 @@ class ExcelFile(File):
 
     def _write(self):
         # Create a Pandas Excel writer (using the engine available).
-        with pd.ExcelWriter(self.filename) as writer:
+        # NOTE: the workbook is prepared in memory (when possible), the file is only touched if this succeeds
+        inMemory = os.path.splitext(self.filename)[1].lower()=='.xlsx'
+        target   = BytesIO() if inMemory else self.filename
+        with pd.ExcelWriter(target) as writer:
             # Convert the dataframe to an Excel object.
             for k,_ in self.data.items():
                 df = self.data[k]
                 df.to_excel(writer, sheet_name=k, index=False)
+        if inMemory:
+            with open(self.filename, 'wb') as f:
+                f.write(target.getvalue())
         # # Account info columns (set size)
         # worksheet.set_column('B:D', 20)
         # # Total formatting
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9d7d95a..e29bf08 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1599,11 +1599,14 @@ class ADPolarFile(FASTInputFileBase):
                             d['label']='Re'
                         break
             # Write
+            try:
+                s = self.toString()
+            finally:
+                # Restore labels 
+                for i,labFull in enumerate(AllLabels):
+                    self.data[i]['label'] = labFull
             with open(self.filename,'w', errors="surrogateescape") as f:
-                f.write(self.toString())
-            # Restore labels 
-            for i,labFull in enumerate(AllLabels):
-                self.data[i]['label'] = labFull
+                f.write(s)
 
     def _toDataFrame(self):
         dfs = FASTInputFileBase._toDataFrame(self)
diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 6c39571..8480364 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import unicode_literals
 from __future__ import print_function
-from io import open
+from io import open, BytesIO
 from builtins import map
 from builtins import range
 from builtins import chr
@@ -112,13 +112,15 @@ class FASTOutputFile(File):
             writeBinary(self.filename, channels, chanNames, chanUnits, fileID=2, descStr=descStr)
         else:
             # ascii output
+            s=''
+            if os.path.splitext(self.filename.lower())[1]=='.elm':
+                s+='This file was generated by weio.\n' # NOTE: names are on the second line for element files
+            s+='\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n'
+            s+='\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n'
+            # TODO better..
+            s+='\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)])
             with open(self.filename,'w') as f:
-                if os.path.splitext(self.filename.lower())[1]=='.elm':
-                    f.write('This file was generated by weio.\n') # NOTE: names are on the second line for element files
-                f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
-                f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
-                # TODO better..
-                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)]))
+                f.write(s)
 
     def _toDataFrame(self):
         if self.info['attribute_units'] is not None:
@@ -456,7 +458,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
         print("current version just works with FileID = 2")
 
     else:
-        with open(fileName,'wb') as fid:
+        with BytesIO() as fid:
             # Notes on struct:
             # @ is used for packing in native byte order
             #  B - unsigned integer 8 bits
@@ -494,7 +496,10 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write data
             fid.write(struct.pack('@{}h'.format(packedData.size), *packedData.flatten()))
-            fid.close()
+            content = fid.getvalue()
+
+        with open(fileName,'wb') as fid:
+            fid.write(content)
 
 
 if __name__ == "__main__":
diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 3a202e4..ba6de7b 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -126,8 +126,9 @@ class FLEXProfileFile(File):
         return s
 
     def _write(self):
+        s = self.toString()
         with open(self.filename,'w') as f:
-            f.write(self.toString())
+            f.write(s)
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 642ba40..a7f7c45 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -2,7 +2,7 @@ from __future__ import division
 from __future__ import unicode_literals
 from __future__ import print_function
 from __future__ import absolute_import
-from io import open
+from io import open, BytesIO, StringIO
 from builtins import map
 from builtins import range
 from builtins import chr
@@ -114,9 +114,10 @@ class HAWC2DatFile(File):
         nChannels = self.data.shape[1]
         SimTime   = self.data[-1,0] #-self.data[0,0]
         # --- dat file
-        np.savetxt(datfilename, self.data, fmt=b'%16.8e')
+        dat = BytesIO()
+        np.savetxt(dat, self.data, fmt=b'%16.8e')
         # --- Sel file
-        with open(selfilename, 'w') as f:
+        with StringIO() as f:
             if self.bHawc:
                 f.write('BHawC channel reference file (sel):\n')
                 f.write('+===================== (Name) =================== (Time stamp) ========= (Path) ==========================================================+\n')
@@ -148,6 +149,12 @@ class HAWC2DatFile(File):
                     unit=unit.replace('(','').replace(')','').replace('[','').replace(']','')
                     f.write('{:12s}{:31s}{:11s}{:s}\n'.format(str(chan+1),label[0:30],unit,descr))
                 f.write('________________________________________________________________________________________________________________________\n');
+            sel = f.getvalue()
+        # --- Writing both files once their content is known
+        with open(datfilename, 'wb') as f:
+            f.write(dat.getvalue())
+        with open(selfilename, 'w') as f:
+            f.write(sel)
 
 class BHAWCDatFile(HAWC2DatFile):
     def __init__(self, filename=None, **kwargs):
diff --git a/weio/mannbox_file.py b/weio/mannbox_file.py
index 613c6fb..14314e9 100644
--- a/weio/mannbox_file.py
+++ b/weio/mannbox_file.py
@@ -159,10 +159,12 @@ class MannBoxFile(File):
             raise Exception('No filename provided')
         nx,ny,nz = self['field'].shape
         sfmt='<{:d}f'.format(ny*nz)
+        planes=[]
+        for ix in np.arange(nx):
+            data = np.flip(self['field'][ix,:,:],0).ravel() # We have to flip the y axis again
+            planes.append(struct.pack(sfmt, *data))
         with open(self.filename, mode='wb') as f:            
-            for ix in np.arange(nx):
-                data = np.flip(self['field'][ix,:,:],0).ravel() # We have to flip the y axis again
-                f.write(struct.pack(sfmt, *data))
+            f.writelines(planes)
 
     
     def __repr__(self):
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 776bbcc..2315e70 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+from io import StringIO
 from datetime import datetime
 
 try:
@@ -194,11 +195,13 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
         txt_filename: str, optional
                         Desired output filename to print rotor performance data. Default is Cp_Ct_Cq.txt
     '''
+    content = StringIO()
+    _write_rotor_performance(content, pitch, TSR, CP, CT, CQ, WS=WS, TurbineName=TurbineName)
     with open(txt_filename,'w') as file:
-        _write_rotor_performance(file, pitch, TSR, CP, CT, CQ, WS=WS, TurbineName=TurbineName)
+        file.write(content.getvalue())
 
 def _write_rotor_performance(file, pitch, TSR, CP, CT, CQ, WS=None, TurbineName=''):
-    """ see write_rotor_performance, file is open for writing"""
+    """ see write_rotor_performance, file is a text stream"""
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
     file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.now().strftime('%b-%d-%y')))
diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index d47afe6..aaea91e 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -9,6 +9,7 @@ import pandas as pd
 import numpy as np
 import os
 import struct
+from io import StringIO
 
 try:
     from .file import File, EmptyFileError, WrongFormatError, BrokenFormatError
@@ -189,7 +190,7 @@ class TecplotFile(File):
         if not self.filename:
             raise Exception('No filename provided')
 
-        with open(self.filename, mode='w') as f:            
+        with StringIO() as f:
             if 'title' in self.keys():
                 f.write('TITLE = {}\n'.format(self['title']))
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
@@ -207,6 +208,10 @@ class TecplotFile(File):
                     srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision, max_line_width=np.inf,
                             threshold=np.inf, floatmode='unique' if precision is None else None)
                     f.write(srow[1:-1]+'\n')
+            content = f.getvalue()
+
+        with open(self.filename, mode='w') as f:
+            f.write(content)
 
 
     def __repr__(self):
diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 45fa196..8f6ab40 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -156,12 +156,13 @@ class TurbSimFile(File):
         # Providing estimates of uHub and zHub even if these fields are not used
         zHub,uHub, bHub = self.hubValues()
 
+        header  = struct.pack('<h4l', self['ID'], nz, ny, nTwr, nt)
+        header += struct.pack('<6f', dz, dy, dt, uHub, zHub, z0) # NOTE uHub, zHub maybe not used
+        header += struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2])
+        header += struct.pack('<l' , len(info))
+        header += info.encode()
         with open(self.filename, mode='wb') as f:            
-            f.write(struct.pack('<h4l', self['ID'], nz, ny, nTwr, nt))
-            f.write(struct.pack('<6f', dz, dy, dt, uHub, zHub, z0)) # NOTE uHub, zHub maybe not used
-            f.write(struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2]))
-            f.write(struct.pack('<l' , len(info)))
-            f.write(info.encode())
+            f.write(header)
             try:
                 for it in np.arange(nt):
                     f.write(out[:,it,:,:].tobytes(order='F'))
diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index cb7727f..5a482f2 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -85,8 +85,9 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
+        s = self.toString()
         with open(self.filename,'w') as f:
-            f.write(self.toString())
+            f.write(s)
 
         
 
diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index a444271..8f77ff8 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -8,6 +8,7 @@ import pandas as pd
 import numpy as np
 import numpy
 import os
+import tempfile
 from functools import reduce
 import collections
 
@@ -171,7 +172,8 @@ class VTKFile(File):
         point_data = {name: pad2(values) for name, values in self.point_data.items()}
         cell_data  = {name: [pad2(values) for values in data] for name, data in self.cell_data.items()}
 
-        with open(self.filename, "wb") as f:
+        # NOTE: prepared in a temporary file, so that the file is only touched if the content can be written
+        with tempfile.TemporaryFile() as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
@@ -192,6 +194,11 @@ class VTKFile(File):
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
                 _write_field_data(f, cell_data, binary)
+            f.seek(0)
+            content = f.read()
+
+        with open(self.filename, "wb") as f:
+            f.write(content)
 
 
     def __repr__(self):
diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index c5a3a6e..0094670 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -103,8 +103,9 @@ class AEFile(object):
             # fails if dirname is empty string
             if len(os.path.dirname(filename)) > 0:
                 os.makedirs(os.path.dirname(filename))
+        s = str(self)
         with open(filename, 'w') as fid:
-            fid.write(str(self))
+            fid.write(s)
 
     def _read_file(self, filename):
         ''' This method will read in the ae data from a HAWC2 ae file'''
diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 084f9b2..48536ce 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -245,8 +245,10 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         # exist_ok does not exist in Python27
         if not os.path.exists(os.path.dirname(filename)) and os.path.dirname(filename) != "":
             os.makedirs(os.path.dirname(filename))  # , exist_ok=True)
+        s = str(self)
+        s.encode('cp1252')  # NOTE: raises before the file is opened if the content cannot be written
         with self.open(filename, 'w', encoding='cp1252') as fid:
-            fid.write(str(self))
+            fid.write(s)
 
     def set_name(self, name, subfolder=''):
         """Sets the base filename of the simulation files. 
diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 83e0a1b..b4a0766 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -147,8 +147,9 @@ class PCFile(object):
             # fails if dirname is empty string
             if len(os.path.dirname(filename)) > 0:
                 os.makedirs(os.path.dirname(filename))
+        s = str(self)
         with open(filename, 'w') as fid:
-            fid.write(str(self))
+            fid.write(s)
         self.filename = filename
 
 
diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 91497a0..4f852ea 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -149,16 +149,17 @@ class StFile(object):
         # fails if dirname is empty string
         if len(os.path.dirname(filename)) > 0:
             os.makedirs(os.path.dirname(filename), exist_ok=True)
+        s = '%i ; number of sets, Nset\n' % nsets
+        for mset, set_data_dict in self.main_data_sets.items():
+            s += '#%i ; set number\n' % mset
+            for set, set_array in set_data_dict.items():
+                dstr = self.to_str(mset=mset, set=set, precision=precision)
+                npoints = self.main_data_sets[mset][set].shape[0]
+                s += sep + colhead + sep
+                s += '$%i %i\n' % (set, npoints)
+                s += dstr + '\n'
         with open(filename, 'w', encoding=encoding) as fid:
-            fid.write('%i ; number of sets, Nset\n' % nsets)
-            for mset, set_data_dict in self.main_data_sets.items():
-                fid.write('#%i ; set number\n' % mset)
-                for set, set_array in set_data_dict.items():
-                    dstr = self.to_str(mset=mset, set=set, precision=precision)
-                    npoints = self.main_data_sets[mset][set].shape[0]
-                    fid.write(sep + colhead + sep)
-                    fid.write('$%i %i\n' % (set, npoints))
-                    fid.write(dstr + '\n')
+            fid.write(s)
 
     def element_stiffnessmatrix(self, radius, mset_nr, set_nr, length):
         """Compute the element stiffness matrix
-- 
2.43.0


From be35318e697d3dd61b067dc3bf913c2147ad5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 112/150] fix: Tecplot: blank lines are skipped instead of
 ending the reading

---
 weio/tecplot_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index aaea91e..eb56c38 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -102,10 +102,13 @@ def read_tecplot(filename, dict_out={}):
         dfs = []  # list of dataframes
         iline=0
         while True:
-            line= f.readline().strip()
+            line= f.readline()
             iline+=1
             if not line:
-                break
+                break # end of file
+            line=line.strip()
+            if not line:
+                continue # blank line
             l=line.lower().strip()
             # Comment
             if l[0]=='#':
-- 
2.43.0


From c2d4350e925687b591e1d0e7a5abfb3f8a78f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 113/150] fix: HAWC2 htc: setBodyC2 with more sections is
 refused without changing nsec

---
 weio/hawc2_htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 4f0b863..5cb1dd0 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -76,6 +76,8 @@ class HAWC2HTCFile(File):
         nsec     = bdy.c2_def.nsec[0]
         nsec_new = val.shape[0]
         sec_keys = [k for k in bdy.c2_def.keys() if k.startswith('sec')]
+        if nsec_new>nsec:
+            raise NotImplementedError('Setting c2_def with different number of sections') # NOTE: nothing is changed
         bdy.c2_def.nsec = nsec_new
         if nsec != nsec_new:
             if nsec_new<nsec:
@@ -84,8 +86,6 @@ class HAWC2HTCFile(File):
                     del bdy.c2_def.contents[k]
                 sec_keys = sec_keys[:nsec_new]
                 # we delete
-            else:
-                raise NotImplementedError('Setting c2_def with different number of sections')
         for i, k in enumerate(sec_keys):
             bdy.c2_def[k].values[0] = int(val[i][0])
             bdy.c2_def[k].values[1:] = val[i][1:]
-- 
2.43.0


From 23807fa59066a2944f658e8b847d693fecce7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 114/150] fix: CSV file: comment lines given by line number may
 be anywhere in the file

---
 weio/csv_file.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 60b7fb7..2e8567c 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -95,6 +95,8 @@ class CSVFile(File):
                 return False
         def readUnits(iStartLine):
             """ Add units to the column names if they are on the line below, return index of the next line"""
+            if iStartLine in self.commentLines:
+                return iStartLine
             first_line = readline(iStartLine) or ""
             first_cols = split(first_line)
             nPa    = first_line.count('(')+first_line.count('[')
@@ -158,17 +160,25 @@ class CSVFile(File):
                         self.header.append(l.strip())
 
         iStartLine = len(self.header)
+        if len(self.commentLines)>0:
+            # NOTE: some of the comment lines might be further down in the file
+            iStartLine = 0
+            while iStartLine in self.commentLines:
+                iStartLine = iStartLine+1
 
         # --- File separator 
         if self.sep is None:
             # Detecting separator by reading first lines of the file
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip()]
-                    second = next(f, '').strip()
-                    if len(second)>0: # NOTE: there might be only one line
-                        head.append(second)
+                    head=[]
+                    for i, line in enumerate(f):
+                        if i>=iStartLine and i not in self.commentLines:
+                            head.append(line.strip())
+                        if len(head)==2:
+                            break
+                    if len(head)==2 and len(head[1])==0: # NOTE: there might be only one line
+                        head.pop()
                 # comma, semi columns or tab
                 if ',' in head[-1]:
                     self.sep=','
@@ -196,8 +206,7 @@ class CSVFile(File):
                 line=readline(self.colNamesLine)
                 self.colNames=split(line)
                 iStartLine = max(iStartLine,self.colNamesLine+1)
-                if iStartLine not in self.commentLines:
-                    iStartLine = readUnits(iStartLine)
+                iStartLine = readUnits(iStartLine)
         elif len(self.colNames)>0:
             pass
         elif not self.detectColumnNames:
@@ -269,7 +278,15 @@ class CSVFile(File):
             # Column names need to be written unless they are already part of the header
             headerLines = self.commentLines if len(self.commentLines)>0 else range(len(self.header))
             writeNames = self.colNamesLine is not None and self.colNamesLine>=0 and self.colNamesLine not in headerLines
-            s = '\n'.join(self.header)+'\n' + self.data.to_csv(sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
+            s = self.data.to_csv(sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
+            if len(self.commentLines)==len(self.header):
+                # Comment lines are written where they were read
+                lines = s.split('\n')
+                for i, h in zip(sorted(self.commentLines), self.header):
+                    lines.insert(i, h)
+                s = '\n'.join(lines)
+            else:
+                s = '\n'.join(self.header)+'\n' + s
         else:
             s = self.data.to_csv(sep=self.sep, index=False, na_rep=na_rep)
         with open(self.filename, 'w', encoding='utf-8', newline='') as f:
-- 
2.43.0


From 8c5bdcad1f1275bbb7016c96b08f834d0451b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 115/150] fix: HAWC2 htc: words such as inf or 1e400 are kept
 instead of raising an OverflowError

---
 weio/wetb/hawc2/htc_contents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 71aa82a..334126b 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -32,7 +32,7 @@ def fmt_value(v):
         if int(float(v)) == float(v):
             return int(float(v))
         return float(v)
-    except ValueError:
+    except (ValueError, OverflowError): # NOTE: words like "inf" are not integers
         return v.replace("\\", "/")
 
 
@@ -455,7 +455,7 @@ class HTCSensor(HTCLine):
                 if int(float(v)) == float(v):
                     return int(float(v))
                 return float(v)
-            except ValueError:
+            except (ValueError, OverflowError):
                 return v
         values = [fmt(v) for v in values]
         return HTCSensor(type, sensor, values, comments)
-- 
2.43.0


From fd3b5fcc6769be0c140607bc78e18de0429d6222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:39 +0000
Subject: [PATCH 116/150] fix: HAWC2 htc: words such as 2020_11 are kept
 instead of being changed to a number

---
 weio/wetb/hawc2/htc_contents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 334126b..40ca7bd 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -29,6 +29,8 @@ def parse_next_line(lines):
 
 def fmt_value(v):
     try:
+        if '_' in v:
+            raise ValueError('Not a number') # NOTE: python accepts 2020_11 as the number 202011
         if int(float(v)) == float(v):
             return int(float(v))
         return float(v)
@@ -452,6 +454,8 @@ class HTCSensor(HTCLine):
 
         def fmt(v):
             try:
+                if '_' in v:
+                    raise ValueError('Not a number')
                 if int(float(v)) == float(v):
                     return int(float(v))
                 return float(v)
-- 
2.43.0


From 0a67c5a7907d797dcf159a5bf6e134283466d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 117/150] fix: HAWC2 st: the element stiffness matrix uses the
 shear correction of the right axis in both bending planes

---
 weio/wetb/hawc2/st_file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 4f852ea..afa8a7f 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -186,7 +186,6 @@ class StFile(object):
         ETAY = EMOD * IY / (KX * GMOD * A * ELLGTH**2)
         ROX = 1 / (1 + 12 * ETAX)
         ROY = 1 / (1 + 12 * ETAY)
-        ROY = 1 / (1 + 12 * ETAX)
         K[1, 1] = 12 * EMOD * IY * ROY / ELLGTH**3
         K[1, 5] = 6 * EMOD * IY * ROY / ELLGTH**2
         K[1, 6] = -K[1, 1] * ES2
-- 
2.43.0


From 2a143805d202f4055fa2416e8ab240dc6c686909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 118/150] fix: FLEX profile: a file with latin headers can be
 written back (was truncated)

---
 weio/flex_profile_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index ba6de7b..f6ab010 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -127,7 +127,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         s = self.toString()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(s)
 
     def __repr__(self):
-- 
2.43.0


From 37011a009e4e6a8f6d76aa8f9accb4140128163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 119/150] fix: HAWC2 ae, pc and st files with latin comments
 can be read

---
 weio/hawc2_st_file.py      | 2 +-
 weio/wetb/hawc2/ae_file.py | 2 +-
 weio/wetb/hawc2/pc_file.py | 2 +-
 weio/wetb/hawc2/st_file.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/hawc2_st_file.py b/weio/hawc2_st_file.py
index f2389c4..e8a2751 100644
--- a/weio/hawc2_st_file.py
+++ b/weio/hawc2_st_file.py
@@ -29,7 +29,7 @@ class HAWC2StFile(File):
         nLinesMax=12
         hasPound=False
         hasDollar=False
-        with open(self.filename,'r') as fid:
+        with open(self.filename,'r', errors='surrogateescape') as fid:
             for i, line in enumerate(fid):
                 hasPound  = hasPound or  line.startswith('#') 
                 hasDollar = hasDollar or line.startswith('$')
diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index 0094670..02f7cbe 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -109,7 +109,7 @@ class AEFile(object):
 
     def _read_file(self, filename):
         ''' This method will read in the ae data from a HAWC2 ae file'''
-        with open(filename) as fid:
+        with open(filename, errors='surrogateescape') as fid:
             lines = fid.readlines()
         nsets = int(lines[0].split()[0])
         lptr = 1
diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index b4a0766..077669c 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -23,7 +23,7 @@ class PCFile(object):
     def __init__(self, filename=None):
         self.pc_sets = {}
         if filename is not None:
-            with open (filename) as fid:
+            with open (filename, errors='surrogateescape') as fid:
                 lines = fid.readlines()
             self._parse_lines(lines)
             self.filename = filename
diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index afa8a7f..aa68b17 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -70,7 +70,7 @@ class StFile(object):
             self.main_data_sets = {}
             return
 
-        with open(filename) as fid:
+        with open(filename, errors='surrogateescape') as fid:
             txt = fid.read()
 #         Some files starts with first set ("#1...") with out specifying number of sets
 #         no_maindata_sets = int(txt.strip()[0])
-- 
2.43.0


From f0471495cab47a33c410bb33dffecd7299767985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 120/150] fix: HAWC2 results whose sensor file contains latin
 characters can be read and written

---
 weio/hawc2_dat_file.py     | 2 +-
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index a7f7c45..ca4eb19 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -153,7 +153,7 @@ class HAWC2DatFile(File):
         # --- Writing both files once their content is known
         with open(datfilename, 'wb') as f:
             f.write(dat.getvalue())
-        with open(selfilename, 'w') as f:
+        with open(selfilename, 'w', errors='surrogateescape') as f:
             f.write(sel)
 
 class BHAWCDatFile(HAWC2DatFile):
diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index d82b150..56372f1 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -80,7 +80,7 @@ class ReadHawc2(object):
         # read *.sel hawc2 output file for result info
         if self.FileName.lower().endswith('.sel'):
             self.FileName = self.FileName[:-4]
-        fid = opent(self.FileName + '.sel', 'r')
+        fid = opent(self.FileName + '.sel', 'r', errors='surrogateescape')
         Lines = fid.readlines()
         fid.close()
         if Lines[0].lower().find('bhawc')>=0:
-- 
2.43.0


From 755e2f54be0d0433d85819c3161b3f4b8d05b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 121/150] fix: Bladed results whose sensor file contains latin
 characters can be read

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index a9cbdf1..940971d 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -26,7 +26,7 @@ def read_bladed_sensor_file(sensorfile):
     """ 
     Extract relevant informations from a bladed sensor file
     """
-    with open(sensorfile, 'r') as fid:
+    with open(sensorfile, 'r', errors='surrogateescape') as fid:
         sensorLines = fid.readlines()
 
     dat=dict() # relevant info in sensor file
-- 
2.43.0


From d8b8918fd04db4b95fe97555c961cf317fb83aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 122/150] fix: FAST text output with latin characters in its
 header can be read and written

---
 weio/fast_output_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 8480364..353b023 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -68,7 +68,7 @@ class FASTOutputFile(File):
 
     def _read(self):
         def readline(iLine):
-            with open(self.filename) as f:
+            with open(self.filename, errors='surrogateescape') as f:
                 for i, line in enumerate(f):
                     if i==iLine-1:
                         return line.strip()
@@ -119,7 +119,7 @@ class FASTOutputFile(File):
             s+='\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n'
             # TODO better..
             s+='\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)])
-            with open(self.filename,'w') as f:
+            with open(self.filename,'w', errors='surrogateescape') as f:
                 f.write(s)
 
     def _toDataFrame(self):
@@ -170,7 +170,7 @@ def load_output(filename):
     return load_ascii_output(filename)
 
 def load_ascii_output(filename):
-    with open(filename) as f:
+    with open(filename, errors='surrogateescape') as f:
         info = {}
         info['name'] = os.path.splitext(os.path.basename(filename))[0]
         # Header is whatever is before the keyword `time`
-- 
2.43.0


From 77cffcec972fbf3657fc7713a4629102b5320f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 123/150] fix: a FAST input object can read a file of another
 kind

---
 weio/fast_input_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index e29bf08..9108760 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -99,7 +99,12 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        # NOTE: the file might be of another kind than the one read previously
+        basefile = FASTInputFileBase()
+        basefile.filename = filename or self.filename
+        basefile.read()
+        self.basefile   = basefile
+        self._fixedfile = None
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From ba5247ab069d6c1a7150cad3eb4e02caee479bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 124/150] fix: a linearization object which reads another file
 drops the content of the first

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index ad929bd..9c0e685 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear() # removing data from a previous read
         self['header']=[]
 
         def extractVal(lines, key):
-- 
2.43.0


From c6cdb54e5e2b172881a54337efa6685621b4e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 125/150] fix: tecplot content of a file is not kept for the
 next one

---
 weio/tecplot_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index eb56c38..6330ec8 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -86,7 +86,7 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
@@ -95,6 +95,8 @@ def read_tecplot(filename, dict_out={}):
     For now, assumes that only one section of numerical data is present
     """
 
+    if dict_out is None:
+        dict_out={} # NOTE: a new dictionary for each call
     merged_line=''
     current_section=''
     variables=[]
@@ -177,6 +179,7 @@ class TecplotFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # removing data from a previous read
         try:
             read_tecplot(self.filename,self)
         except BrokenFormatError:
-- 
2.43.0


From 81feb453ed7e820f7b52131fffdb155d890b0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 126/150] fix: tecplot files which are not utf-8 are read and
 written

---
 weio/tecplot_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 6330ec8..9ff53dc 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -100,7 +100,7 @@ def read_tecplot(filename, dict_out=None):
     merged_line=''
     current_section=''
     variables=[]
-    with open(filename, "r") as f:
+    with open(filename, "r", errors="surrogateescape") as f:
         dfs = []  # list of dataframes
         iline=0
         while True:
@@ -216,7 +216,7 @@ class TecplotFile(File):
                     f.write(srow[1:-1]+'\n')
             content = f.getvalue()
 
-        with open(self.filename, mode='w') as f:
+        with open(self.filename, mode='w', errors="surrogateescape") as f:
             f.write(content)
 
 
-- 
2.43.0


From 5fbbcb16e533bc2e9fc54052930db9a292ea2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 127/150] fix: a CSV object which reads another file finds out
 its layout anew

---
 weio/csv_file.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 2e8567c..a547471 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -43,6 +43,7 @@ class CSVFile(File):
         self.commentLines = commentLines
         self.colNamesLine = colNamesLine
         self.detectColumnNames = detectColumnNames
+        self._detected = {}
         self.data=[]
         if header is None:
             self.header=[]
@@ -59,6 +60,17 @@ class CSVFile(File):
         super(CSVFile, self).__init__(filename=filename,**kwargs)
 
     def _read(self):
+        # What was found out about a file read previously does not hold for this one
+        for k, (option, detected) in self._detected.items():
+            if getattr(self, k) is detected:
+                setattr(self, k, option)
+        options = {k: getattr(self, k) for k in ['sep','colNames','commentChar','commentLines','colNamesLine']}
+        try:
+            self._readFile()
+        finally:
+            self._detected = {k: (v, getattr(self, k)) for k,v in options.items()}
+
+    def _readFile(self):
         COMMENT_CHAR=['#','!',';']
         # --- Detecting encoding
         # NOTE: done by parent class method
-- 
2.43.0


From e2a7058004acb44070bda398c6a033011a17fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 128/150] fix: FLEX sensor lists which are not utf-8 are read

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 9da7d2f..03e5358 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -131,7 +131,7 @@ def read_flex_res(filename, dtype=np.float32):
 
 
 def read_flex_sensor(sensor_file):
-    with open(sensor_file, encoding="utf-8") as fid:
+    with open(sensor_file, encoding="utf-8", errors="surrogateescape") as fid:
         sensor_info_lines = fid.readlines()[2:]
     sensor_info = []
     d=dict({ 'ID':[],'Gain':[],'Offset':[],'Unit':[],'Name':[],'Description':[]});
-- 
2.43.0


From 1fb069e0c3f66ede9644044645a2e8c5d449bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 129/150] fix: FLEX documentation column names which end with n
 or rough are kept

---
 weio/flex_doc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index bcf6264..eeb6cda 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -110,8 +110,8 @@ class FLEXDocFile(File):
                     if header.find('[')<=0:
                         cols=header.split()
                     else:
-                        header=header.replace('rough','rough_[-]')
-                        header=header.replace('n ','n_[-] ')
+                        # NOTE: columns `rough` and `n` have no units
+                        header=re.sub(r'(?<!\S)(rough|n)(?=\s*$|\s+[^\s\[])', r'\1_[-]', header)
                         spcol=header.split(']')
                         cols= [v.strip().replace(' ','_').replace('[','_[').replace('__','_').replace('__','_')+']' for v in spcol[:-1]]
 
-- 
2.43.0


From 77e13b0707ed5a1885061219577d4f788ccda8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 130/150] fix: bladed groups of different lengths with the same
 label are all kept

---
 weio/bladed_out_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 940971d..afd0687 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -371,7 +371,12 @@ class BladedFile(File):
             self.dataSets= {'Misc': dataSets[keyMisc[0]]}
         else:
             # Instead of using nMajor as key, we use the "name"
-            self.dataSets= {v['name']: v for (k, v) in dataSets.items()}
+            # NOTE: datasets of different lengths might have the same name
+            self.dataSets= {}
+            for k, v in dataSets.items():
+                if v['name'] in self.dataSets.keys():
+                    v['name'] += '_'+str(k)
+                self.dataSets[v['name']] = v
 
                 
     def toDataFrame(self):        
-- 
2.43.0


From 5d4307b58bc17f2f9a074527f23a033645a5cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 131/150] fix: a division of elements which is refused leaves
 the graph as it was

---
 weio/tools/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 5f3f6ae..1f84fd0 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -505,6 +505,14 @@ class GraphModel(object):
 
         if nPerElement<=0:
             raise Exception('nPerElement should be more than 0')
+        # Refuse before anything is changed
+        if method not in ['append','insert']:
+            raise NotImplementedError('Element Insertions')
+        for e in self.Elements:
+            if len(excludeDataKey)>0 and e.data[excludeDataKey] in excludeDataList:
+                continue
+            if nPerElement>1 and e.propIDs is not None and any(ID!=e.propIDs[0] for ID in e.propIDs):
+                raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
 
         newElements=[]
         for ie in np.arange(len(self.Elements)): # cannot enumerate since length increases
-- 
2.43.0


From b50cb3635d022deb30b91bd776b55c7937a9ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 132/150] fix: yaml lists with incomplete lines or lines of
 different lengths are refused, and integers may be followed by floats

---
 weio/mini_yaml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 442eaa9..d9c1951 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -61,8 +61,18 @@ def yaml_read(filename,dictIn=None):
         M = np.zeros((n,len(FirstElems)), mytype)
         if len(FirstElems)>0:
             for i in np.arange(iStart,iEnd+1):
-                elem = cleanComment(lines[i])[1:].replace(']','').replace('[','').split(',')
-                M[i-iStart,:] = np.array([v.strip() for v in elem if len(v)>0]).astype(mytype)
+                l = cleanComment(lines[i])
+                if l.count('[')!=l.count(']'):
+                    raise Exception('Line {:d} is incomplete: {}'.format(i+1, l))
+                elem = l[1:].replace(']','').replace('[','').split(',')
+                elem = np.array([v.strip() for v in elem if len(v.strip())>0])
+                if len(elem)!=M.shape[1]:
+                    raise Exception('Line {:d} has {} values instead of {}'.format(i+1, len(elem), M.shape[1]))
+                try:
+                    M[i-iStart,:] = elem.astype(M.dtype)
+                except ValueError:
+                    M = M.astype(float) # integers so far
+                    M[i-iStart,:] = elem.astype(float)
         return M, iEnd+1
 
     i=0
-- 
2.43.0


From 6f021833513a66ccb6c61cb588f8c9b1c7f266c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 133/150] fix: a summary file object which reads another file
 drops the content of the first

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index aaeefc1..7604344 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -60,6 +60,7 @@ class FASTSummaryFile(File):
 
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
+        self.clear() # content of a previous file
         if any(['subdyn' in s.lower() for s in header]):
             self['module']='SubDyn'
             readSubDynSum(self)
-- 
2.43.0


From c4b955edbc9e3d78a185015e3a3f9167d44ceae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 134/150] fix: graph of a summary file has the coordinates of
 the file, not rounded to single precision

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 0480297..fe97a02 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -264,7 +264,7 @@ def subdynSumToGraph(data):
     for iNode,N in enumerate(Nodes):
         if len(N)==9: # Temporary fix
             #N[4]=np.float(N[4].split()[0])
-            N=N.astype(np.float32)
+            N=N.astype(float)
         ID = int(N[0])
         nodeDOFs=DOF2Nodes[(DOF2Nodes[:,1]==ID),0] # NOTE: these were reindex to start at 0
         node = Node(ID=ID, x=N[1], y=N[2], z=N[3], Type=int(N[4]), DOFs=nodeDOFs)
-- 
2.43.0


From e22b190dedf6d68299d38261560c19ea41c69323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 135/150] fix: cell data of VTK files with polygons are read

---
 weio/vtk_file.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 8f77ff8..473c3f6 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1127,7 +1127,6 @@ def translate_cells(data, types, cell_data_raw):
         if not numpy.all(numnodes == data[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
             cell_idx = start + _vtk_to_meshio_order(
@@ -1147,6 +1146,16 @@ def translate_cells(data, types, cell_data_raw):
         # convert data to numpy arrays
         for k, c in enumerate(cells):
             cells[k] = CellBlock(c.type, numpy.array(c.data))
+
+        # cell data, block by block
+        start = 0
+        for c in cells:
+            end = start + len(c.data)
+            for name, d in cell_data_raw.items():
+                if name not in cell_data:
+                    cell_data[name] = []
+                cell_data[name].append(d[start:end])
+            start = end
     else:
         # Deduct offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 7c99ec059c6583d187b9baae10b4b70aa324b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 136/150] fix: VTK files with polygons given by offsets and
 connectivity are read

---
 weio/vtk_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 473c3f6..003ff15 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1113,6 +1113,10 @@ def translate_cells(data, types, cell_data_raw):
     cells = []
     cell_data = {}
     if has_polygon:
+        if isinstance(data, tuple):
+            # offsets and connectivity, put in the form (num_points0, p0, p1, ...
+            offsets, conn = data
+            data = numpy.insert(conn, offsets[:-1], numpy.diff(offsets))
         numnodes = numpy.empty(len(types), dtype=int)
         # If some polygons are in the VTK file, loop over the cells
         numcells = len(types)
-- 
2.43.0


From e0c723e3fef6a30dc9eecb9f9ca2e4e7faeefa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 137/150] fix: files of TurbSim time series, Tecplot, ROSCO and
 BModes with characters that are not utf-8 are read

---
 weio/bmodes_out_file.py        | 2 +-
 weio/rosco_performance_file.py | 2 +-
 weio/tecplot_file.py           | 2 +-
 weio/turbsim_ts_file.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index ca6f705..e1b144b 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -77,7 +77,7 @@ class BModesOutFile(File):
         #    for i, line in enumerate(f):
         #        self['data'].append(line)
 
-        with open(self.filename) as f:
+        with open(self.filename, errors='surrogateescape') as f:
             self['frequencies'] = []
             self['mode_shapes'] = []
             row_string = f.readline()
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 2315e70..33642f5 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -137,7 +137,7 @@ def load_from_txt(txt_filename):
     Ct    = None
     Cq    = None
 
-    with open(txt_filename) as pfile:
+    with open(txt_filename, errors='surrogateescape') as pfile:
         for iline, line in enumerate(pfile):
             # Read Blade Pitch Angles (degrees)
             if 'Pitch angle' in line:
diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 9ff53dc..aceb851 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -140,7 +140,7 @@ def read_tecplot(filename, dict_out=None):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2, encoding='latin-1') # NOTE: any character may be present in the lines skipped
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 5a482f2..df7a283 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -86,7 +86,7 @@ class TurbSimTSFile(File):
 
     def _write(self):
         s = self.toString()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w',errors='surrogateescape') as f:
             f.write(s)
 
         
-- 
2.43.0


From 444462fe4313925fe4f1d38ed101a7df659f74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 138/150] fix: ROSCO tables and TurbSim points with another
 number of values are refused

---
 weio/rosco_performance_file.py | 19 ++++++++++---------
 weio/turbsim_ts_file.py        |  5 ++++-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 33642f5..df05957 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -130,6 +130,13 @@ def load_from_txt(txt_filename):
                         Filename of the text containing the Cp, Ct, and Cq data. This should be in the format printed by the write_rotorperformance function
     '''
 
+    def read_table():
+        # Read a matrix (one row per TSR, one value per pitch angle)
+        rows = [[float(x) for x in pfile.readline().strip().split()] for _ in range(len(TSR))]
+        if any(len(row)!=len(pitch) for row in rows):
+            raise BrokenFormatError('The number of values per row does not match the number of pitch angles in ROSCO performance file {}'.format(txt_filename))
+        return np.array(rows).reshape(len(TSR), len(pitch))
+
     pitch = None
     TSR   = None
     WS    = None
@@ -154,23 +161,17 @@ def load_from_txt(txt_filename):
             # Read Power Coefficients
             elif 'Power' in line:
                 pfile.readline()
-                Cp = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Cp[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Cp = read_table()
             
             # Read Thrust Coefficients
             elif 'Thrust' in line:
                 pfile.readline()
-                Ct = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Ct[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Ct = read_table()
 
             # Read Torque Coefficients
             elif 'Torque' in line:
                 pfile.readline()
-                Cq = np.empty((len(TSR),len(pitch)))
-                for tsr_i in range(len(TSR)):
-                    Cq[tsr_i] = np.array([float(x) for x in pfile.readline().strip().split()])
+                Cq = read_table()
 
             if pitch is None and iline>10:
                 raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch vector not found')
diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index df7a283..4f19c3b 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -41,7 +41,10 @@ class TurbSimTSFile(File):
             self['Points']=np.zeros((nPoints,2))
             for i in np.arange(nPoints):
                 line = f.readline().strip()
-                self['Points'][i,:]= np.array(line.split()).astype(float)
+                point = np.array(line.split()).astype(float)
+                if len(point)!=2:
+                    raise BrokenFormatError('Two coordinates are expected for point {}: `{}`'.format(i+1, line))
+                self['Points'][i,:]= point
             f.readline()
             f.readline()
             f.readline()
-- 
2.43.0


From e4dd344a67b0f36310522090daf483a8fa6d5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 139/150] fix: ROSCO tables with integer pitch angles, tip
 speed ratios or wind speeds can be written

---
 weio/rosco_performance_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index df05957..56e255a 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -210,14 +210,14 @@ def _write_rotor_performance(file, pitch, TSR, CP, CT, CQ, WS=None, TurbineName=
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
     for i in range(len(pitch)):
-        file.write('{:0.4}   '.format(pitch[i]))
+        file.write('{:0.4}   '.format(float(pitch[i])))
     file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
     for i in range(len(TSR)):
-        file.write('{:0.4}    '.format(TSR[i]))
+        file.write('{:0.4}    '.format(float(TSR[i])))
     if WS is not None:
         file.write('\n# Wind speed vector - z axis (m/s)\n')
         for i in range(len(WS)):
-            file.write('{:0.4}    '.format(WS[i]))
+            file.write('{:0.4}    '.format(float(WS[i])))
         file.write('\n')
     
     # Cp
-- 
2.43.0


From cae7beda577b0cde1657441b7ec9884b390bc588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 140/150] fix: writing a wind file without header does not
 change the object

---
 weio/fast_wind_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index 5a5aec7..44d27bd 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -46,9 +46,13 @@ class FASTWndFile(CSVFile):
 
     def _write(self, *args, **kwargs):
         # NOTE: without header, the column names would be written, which are not part of the format
-        if len(self.header)==0:
+        header = self.header
+        if len(header)==0:
             self.header=list(self.defaultHeader)
-        super(FASTWndFile, self)._write(*args, **kwargs)
+        try:
+            super(FASTWndFile, self)._write(*args, **kwargs)
+        finally:
+            self.header=header
 
 
     def _toDataFrame(self):
-- 
2.43.0


From 4af986036c7053038166d34de25abd4c509734c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 141/150] fix: CACTUS: data frame can be requested again,
 without element data, or with one time step

---
 weio/cactus_file.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..5443fe0 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -184,6 +184,7 @@ class CactusFile(File):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
             return None
+        df        = df.copy() # NOTE: the data read from file should not be altered
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
@@ -234,7 +235,8 @@ class CactusFile(File):
         df.insert(c , 'RtAeroFzh_[N]'   ,-(np.cos(theta)*df['Fz Coeff. (-)'] + np.sin(theta)*df['Fx Coeff. (-)'])*F0  ); c+=1
         df.insert(c , 'RtAeroMxh_[N-m]' , df['Torque Coeff. (-)']*Q0)              ; c+=1
         df.insert(c , 'RtAeroPwr_[W]'   , df['Power Coeff. (-)']*P0)               ; c+=1
-        df['RtAeroPwr_[W]'].values[0]=df['RtAeroPwr_[W]'].values[1]
+        if df.shape[0]>1:
+            df['RtAeroPwr_[W]'].values[0]=df['RtAeroPwr_[W]'].values[1]
 
         df.insert(c , 'RotSpeed_[rpm]'   , self.RPM*ones)                               ; c+=1
 
@@ -260,7 +262,8 @@ class CactusFile(File):
             df.insert(c , 'Z'+sb+'AeroFzg_[N]'   , df['Blade'+sb+' Fy Coeff. (-)']*F0)           ; c+=1
             df.insert(c , 'Z'+sb+'AeroMzg_[N-m]' , df['Blade'+sb+' Torque Coeff. (-)']*Q0)       ; c+=1
 
-            df['Y'+sb+'AeroPwr_[W]'].values[0] = df['Y'+sb+'AeroPwr_[W]'].values[1]
+            if df.shape[0]>1:
+                df['Y'+sb+'AeroPwr_[W]'].values[0] = df['Y'+sb+'AeroPwr_[W]'].values[1]
 
         df.insert(c , 'Wind1VelX_[m/s]' , U*ones)                                  ; c+=1
 
@@ -270,7 +273,7 @@ class CactusFile(File):
     def elemDataToOpenFAST(self, dfElem,  df, c=0, dfDS=None, alphaSign=-1):
         """ Convert to similar lables as openfast """
         if dfElem is None:
-            return df
+            return df,c
 
         U=self.U
         R=self.R
@@ -370,6 +373,8 @@ class CactusFile(File):
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
+        if self['dfTime'] is None:
+            return None
         df,c = self.timeDataToOpenFAST(df = self['dfTime'])
         df,c = self.elemDataToOpenFAST(dfElem=self['dfElem'],  df=df, c=c, dfDS=self['dfDS'], alphaSign=alphaSign)
         return df
-- 
2.43.0


From 5c04b2ced21f50e10caf0459a5b4e20a4b61d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 142/150] fix: RAAW: channels missing from the file are added
 one by one in xarray output

---
 weio/raawmat_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index dc7d063..5c63494 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -79,10 +79,10 @@ def matfile(path_file,output='pandas',path_key=None):
         try:
             if missing50hz:
                 for x in missing50hz: dat_50hz.append(nan50)
-                names_50hz.append(missing50hz)
+                names_50hz += missing50hz
             if missing1hz:
                 for y in missing1hz: dat_1hz.append(nan1)
-                names_1hz.append(missing1hz)
+                names_1hz += missing1hz
         except:
             pass
         # convert lists into xarray
-- 
2.43.0


From afd49b303518af4433f330ef38606988463a12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:31 +0000
Subject: [PATCH 143/150] fix: numbers of platform matrices stay separated
 whatever their exponent

---
 weio/fast_input_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9108760..add4872 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1791,19 +1791,19 @@ class ExtPtfmFile(FASTInputFileBase):
 
         s+='\n!Mass Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['MassMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['MassMatrix'])
 
         s+='\n\n!Stiffness Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['StiffnessMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['StiffnessMatrix'])
 
         s+='\n\n!Damping Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['DampingMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['DampingMatrix'])
 
         s+='\n\n!Loading and Wave Elevation\n'
         s+='!Dimension: 1 time column -  {} force columns\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['Loading'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['Loading'])
         return s
 
     def _writeSanityChecks(self):
-- 
2.43.0


From 93a7b94dfa3e582b34fb35eb8fd3ee531f6dbc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 144/150] fix: numbers of TurbSim time series stay separated
 whatever their exponent

---
 weio/turbsim_ts_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 4f19c3b..7fbc874 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -79,12 +79,12 @@ class TurbSimTSFile(File):
         s+='{:^16s}{:^16s} {}\n'.format('Pointyi','Pointzi','! nPoints listed in order of increasing height')
         s+='{:^16s}{:^16s}\n'.format('(m)','(m)')
         for row in self['Points']:
-            s+=''.join(['{:16.8e}'.format(v) for v in row])+'\n'
+            s+=''.join([' {:15.8e}'.format(v) for v in row])+'\n'
 
         s+='--------Time Series-------------------------------------------------------------\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.columns()])+'\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.units()])+'\n'
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['data'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['data'])
         return s
 
     def _write(self):
-- 
2.43.0


From e0c64486c9a9112b4093d59e4c94e787505034bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:28 +0000
Subject: [PATCH 145/150] fix: input files may start with an empty line

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index add4872..e867959 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1692,7 +1692,7 @@ def detectAndReadExtPtfmSE(self, lines):
         return M
     if len(lines)<10:
         return False
-    if not (lines[0][0]=='!' and lines[1][0]=='!'):
+    if not (lines[0].startswith('!') and lines[1].startswith('!')):
         return False
     if lines[1].lower().find('flex')<0:
         return
-- 
2.43.0


From 58871afb23ff348ed8af0fcbbb5ee62493874bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 146/150] fix: frame of AeroDyn 14 airfoils with another number
 of columns

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index e867959..5c5394a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -909,6 +909,7 @@ class FASTInputFileBase(File):
                     d['tabUnits']       = ['(deg)']+['(-)' , '(-)']*nTables
                 else:
                     d['tabColumnNames'] = ['col{}'.format(j) for j in range(np.size(data,1))]
+                    d['tabUnits']       = None
                 self.data.append(d)
                 return True
 
-- 
2.43.0


From 6e4f3dfcd716a0769f3afa61dd1a6a5cb5440a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 147/150] fix: quoted values may start with a blank

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 5c5394a..81a629f 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1013,7 +1013,7 @@ def _merge_value(splits):
 
     merged = splits.pop(0)
     if merged[0] == '"':
-        while merged[-1] != '"':
+        while merged[-1] != '"' or len(merged)==1: # NOTE: a blank may follow the opening quote
             merged += " "+splits.pop(0)
     splits.insert(0, merged)
 
-- 
2.43.0


From b5164e1dc6cf69a32963d0bd8e07ec8ffae9c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 148/150] fix: output list directly after the additional
 stiffness of HydroDyn

---
 weio/fast_input_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 81a629f..9b21af4 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -453,8 +453,7 @@ class FASTInputFileBase(File):
                 d['tabType'] = TABTYPE_FIL # TODO
                 d['value']   = KDAdd
                 self.data.append(d)
-                if i>=len(lines):
-                    break
+                continue # The next line may be a special section
             elif line.upper().find('DISTRIBUTED PROPERTIES')>0:
                 self.data.append(parseFASTInputLine(line,i));
                 i+=1;
-- 
2.43.0


From fb57f1a96189f961306a780fc2a02f24ca2626df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 149/150] fix: saving a delimited table changes the separator
 used for reading again

---
 weio/csv_file.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index a547471..b99e455 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -279,18 +279,20 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
-        elif self.sep is None:
-            self.sep=','
+        # NOTE: the separator of the object is left as is, since it is an option for the next reading
+        sep = self.sep
+        if sep==r'\s+' or sep=='':
+            sep='\t'
+        elif sep is None:
+            sep=','
         # NOTE: missing values need to be written explicitly when columns are separated by blanks
-        na_rep = 'NaN' if self.sep in ['\t',' '] else ''
+        na_rep = 'NaN' if sep in ['\t',' '] else ''
         # Write
         if len(self.header)>0:
             # Column names need to be written unless they are already part of the header
             headerLines = self.commentLines if len(self.commentLines)>0 else range(len(self.header))
             writeNames = self.colNamesLine is not None and self.colNamesLine>=0 and self.colNamesLine not in headerLines
-            s = self.data.to_csv(sep=self.sep, index=False, header=writeNames, na_rep=na_rep)
+            s = self.data.to_csv(sep=sep, index=False, header=writeNames, na_rep=na_rep)
             if len(self.commentLines)==len(self.header):
                 # Comment lines are written where they were read
                 lines = s.split('\n')
@@ -300,7 +302,7 @@ class CSVFile(File):
             else:
                 s = '\n'.join(self.header)+'\n' + s
         else:
-            s = self.data.to_csv(sep=self.sep, index=False, na_rep=na_rep)
+            s = self.data.to_csv(sep=sep, index=False, na_rep=na_rep)
         with open(self.filename, 'w', encoding='utf-8', newline='') as f:
             f.write(s)
 
-- 
2.43.0


From 9ac1423196417ae17e2f59b7a47cd9a9074a38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:45 +0000
Subject: [PATCH 150/150] fix: column names separated by blanks within the
 comment lines are lost after saving the table

---
 weio/csv_file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index b99e455..646e1bf 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -205,6 +205,7 @@ class CSVFile(File):
                 pass
 
         # --- ColumnNames
+        nameLine = None
         if self.colNamesLine is not None:
             if self.colNamesLine<0:
                 # The column names are hidden somwhere in the header 
@@ -213,9 +214,11 @@ class CSVFile(File):
                 if self.commentChar is not None:
                     if line.find(self.commentChar)==0:
                         line=line[len(self.commentChar):].strip()
+                nameLine = line
                 self.colNames = split(line)
             else:
                 line=readline(self.colNamesLine)
+                nameLine = line
                 self.colNames=split(line)
                 iStartLine = max(iStartLine,self.colNamesLine+1)
                 iStartLine = readUnits(iStartLine)
@@ -270,6 +273,9 @@ class CSVFile(File):
         except pd.errors.ParserError as e:
             raise WrongFormatError('CSV File {}: '.format(self.filename)+e.args[0])
 
+        if self.sep=='\t' and nameLine and len(self.colNames)!=len(self.data.columns):
+            # Data separated by tabs, but names separated by blanks (e.g. after we wrote the file)
+            self.colNames = nameLine.split()
         if (len(self.colNames)==0) or (len(self.colNames)!=len(self.data.columns)):
             self.colNames=['C{}'.format(i) for i in range(len(self.data.columns))]
         self.data.columns = self.colNames;
-- 
2.43.0

