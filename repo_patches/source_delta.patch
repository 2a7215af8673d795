From 770368cb52fa03a6d197c4ee61c9990a74d4f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 01/26] fix: write_mitgridfile must not report success after a
 lost write

numpy's tofile ignores the error of flushing its stdio buffer, so that up to
4 kB per field were lost silently on a full or failing disk; and the file was
never closed explicitly (missing parentheses), so that errors reported at close
could not be seen either.
---
 simplegrid/gridio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index f53ab79..d18f8ed 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -158,8 +158,9 @@ def write_mitgridfile(filename,griddata,ni,nj,verbose=False):
         # finally, ensure double-precision, big-endian representation:
         outarray = tmparray.astype('>f8')
         # append to output file:
-        outarray.tofile(fd)
+        # (not tofile, which ignores errors reported when its data are flushed):
+        fd.write(outarray.tobytes())
 
-    fd.close
+    fd.close()
     return True
 
-- 
2.43.0


From d6a0c9be356e2aca6f46748ffc6d7c53e9901e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/26] fix: read errors must not leave uninitialized values in
 grids read

np.fromfile without a count ignores the result of its read.
---
 simplegrid/gridio.py | 4 +++-
 simplegrid/regrid.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index d18f8ed..6c65207 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -88,7 +88,9 @@ def read_mitgridfile(filename,ni,nj,strict=False,verbose=False):
     if verbose:
         sys.stdout.write('reading {0:d} doubles from {1:s}... '.format(
             len(mgf.names)*slice_size,filename))
-    rawdata = np.fromfile(filename,dt)
+    # (without a count, np.fromfile does not notice read errors, and leaves the
+    # rest of its result uninitialized):
+    rawdata = np.fromfile(filename,dt,len(mgf.names)*slice_size)
     if verbose:
         sys.stdout.write(' done.\n')
 
diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..5580207 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -152,10 +152,13 @@ def regrid( strict=False, verbose=False, **kwargs):
                 mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
             else:
                 # read binary column-ordered data, store in dictionary fields that
-                # read_mitgridfile would have produced:
-                XG_raw = np.fromfile(xg_file,mitgridfilefields.datatype)
+                # read_mitgridfile would have produced (read errors go unnoticed
+                # by np.fromfile unless a count is given; one more than needed
+                # to have longer files rejected by reshape):
+                count = (ni+1)*(nj+1)+1
+                XG_raw = np.fromfile(xg_file,mitgridfilefields.datatype,count)
                 mitgrid['XG'] = np.reshape(XG_raw,(ni+1,nj+1),order='F')
-                YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype)
+                YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype,count)
                 mitgrid['YG'] = np.reshape(YG_raw,(ni+1,nj+1),order='F')
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
-- 
2.43.0


From aade3211b172e0842a8b8b75e1f761ce872d2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 03/26] fix: reject csv corner coordinates that do not match
 ni, nj

---
 simplegrid/regrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 5580207..e440f8b 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -150,6 +150,12 @@ def regrid( strict=False, verbose=False, **kwargs):
                 # would have produced:
                 mitgrid['XG'] = np.loadtxt(xg_file,delimiter=',')
                 mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
+                # a file that lost lines is not a smaller grid:
+                for (key,name) in (('XG',xg_file),('YG',yg_file)):
+                    if mitgrid[key].shape != (ni+1,nj+1):
+                        raise ValueError(
+                            'expected {0}x{1} values in {2}, found shape {3}'.format(
+                                ni+1,nj+1,name,mitgrid[key].shape))
             else:
                 # read binary column-ordered data, store in dictionary fields that
                 # read_mitgridfile would have produced (read errors go unnoticed
-- 
2.43.0


From 264728438753dabf462a594082226abcb69c201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 04/26] fix: rdmds must not return uninitialized values after a
 read error

---
 simplegrid/mds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..3a5fe95 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -152,7 +152,10 @@ def aslist(i):
 
 
 def fromfileshape(filename,dtype,shape=None,**kwargs):
-    return np.fromfile(filename, dtype, **kwargs).reshape(shape)
+    # np.fromfile only notices read errors if a count is given; ask for one more
+    # than needed to have longer files rejected by reshape
+    count = int(np.prod(shape, dtype=np.int64)) + 1
+    return np.fromfile(filename, dtype, count=count, **kwargs).reshape(shape)
 
 
 def scanforfiles(fname):
-- 
2.43.0


From 075d38ea0f8277f678737573f4c071b660aa3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 05/26] fix: regrid must not modify the caller's
 mitgrid_matrices

---
 simplegrid/regrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index e440f8b..5bf340d 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -169,7 +169,8 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        # (copy, since rotations below replace entries):
+        mitgrid = dict(mitgrid_matrices)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From 1b994743aafab754b96ea36fe147eac6f86369d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 06/26] fix: squad_uarea must not turn off all warnings of the
 process

---
 simplegrid/util.py | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..b73ccf4 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -102,39 +102,38 @@ def squad_uarea( cart):
 
     """
 
-    # only because some geometries are poorly conditioned:
-    import warnings
-    warnings.filterwarnings("ignore")
-
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
-    for x_idx in np.arange(np.size(cart,0)-1):
-        for y_idx in np.arange(np.size(cart,1)-1):
-
-            # quadrilateral corners in counterclockwise direction:
-            ptA = cart[x_idx  ,y_idx  ,:]
-            ptB = cart[x_idx+1,y_idx  ,:]
-            ptC = cart[x_idx+1,y_idx+1,:]
-            ptD = cart[x_idx  ,y_idx+1,:]
-
-            # interior angles of first subtriangle:
-            at,bt,ct = ptA, ptB, ptC
-            ca,cb,cc = np.dot(bt,ct), np.dot(at,ct), np.dot(at,bt)
-            sa,sb,sc = np.sin(np.arccos(ca)), np.sin(np.arccos(cb)), np.sin(np.arccos(cc))
-            A1 = np.arccos((ca-cb*cc)/(sb*sc))
-            B1 = np.arccos((cb-ca*cc)/(sa*sc))
-            C1 = np.arccos((cc-ca*cb)/(sa*sb))
-
-            # interior angles of second subtriangle:
-            at,bt,ct = ptA, ptC, ptD
-            ca,cb,cc = np.dot(bt,ct), np.dot(at,ct), np.dot(at,bt)
-            sa,sb,sc = np.sin(np.arccos(ca)), np.sin(np.arccos(cb)), np.sin(np.arccos(cc))
-            A2 = np.arccos((ca-cb*cc)/(sb*sc))
-            B2 = np.arccos((cb-ca*cc)/(sa*sc))
-            C2 = np.arccos((cc-ca*cb)/(sa*sb))
-
-            # area:
-            area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
+    # only because some geometries are poorly conditioned:
+    with np.errstate(divide='ignore',invalid='ignore'):
+
+        for x_idx in np.arange(np.size(cart,0)-1):
+            for y_idx in np.arange(np.size(cart,1)-1):
+
+                # quadrilateral corners in counterclockwise direction:
+                ptA = cart[x_idx  ,y_idx  ,:]
+                ptB = cart[x_idx+1,y_idx  ,:]
+                ptC = cart[x_idx+1,y_idx+1,:]
+                ptD = cart[x_idx  ,y_idx+1,:]
+
+                # interior angles of first subtriangle:
+                at,bt,ct = ptA, ptB, ptC
+                ca,cb,cc = np.dot(bt,ct), np.dot(at,ct), np.dot(at,bt)
+                sa,sb,sc = np.sin(np.arccos(ca)), np.sin(np.arccos(cb)), np.sin(np.arccos(cc))
+                A1 = np.arccos((ca-cb*cc)/(sb*sc))
+                B1 = np.arccos((cb-ca*cc)/(sa*sc))
+                C1 = np.arccos((cc-ca*cb)/(sa*sb))
+
+                # interior angles of second subtriangle:
+                at,bt,ct = ptA, ptC, ptD
+                ca,cb,cc = np.dot(bt,ct), np.dot(at,ct), np.dot(at,bt)
+                sa,sb,sc = np.sin(np.arccos(ca)), np.sin(np.arccos(cb)), np.sin(np.arccos(cc))
+                A2 = np.arccos((ca-cb*cc)/(sb*sc))
+                B2 = np.arccos((cb-ca*cc)/(sa*sc))
+                C2 = np.arccos((cc-ca*cb)/(sa*sb))
+
+                # area:
+                area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
 
     return area
 
-- 
2.43.0


From f347787c1b86a3eeb1c54bc02175b10d68578b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 07/26] fix: rdmds with usememmap must not write to the files
 it reads

---
 simplegrid/mds.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 3a5fe95..f74cd52 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -268,11 +268,6 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
     """
     import functools
     usememmap = usememmap or mm
-    if usememmap:
-        readdata = np.memmap
-    else:
-        readdata = fromfileshape
-
     # add iteration number to file name unless itrs is -1
     additrs = itrs != -1
     if itrs is np.nan:
@@ -309,7 +304,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        readdata = np.memmap
+        # (the default mode, r+, writes: it extends files that are too short)
+        readdata = functools.partial(np.memmap, mode='r')
     else:
         recsatonce = allrec
         readdata = fromfileshape
-- 
2.43.0


From 3d41bf69e174d9acfbb14f2fa3c7cc5119fd90f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 08/26] fix: wrmds must not lose data silently, nor leave
 metadata for other data

---
 simplegrid/mds.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index f74cd52..87ecd24 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import re
 import glob
@@ -559,6 +560,17 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
     if itr is not None:
         fbase = fbase + '.{:010d}'.format(itr)
 
+    # data first, without any metadata that describes what was there before, so
+    # that files left behind by an interrupted write are never mistaken for data
+    try:
+        os.remove(fbase + '.meta')
+    except FileNotFoundError:
+        pass
+
+    # (not tofile, which ignores errors reported when its data are flushed)
+    with open(fbase + '.data', 'wb') as f:
+        f.write(arr.astype(tp).tobytes())
+
     with open(fbase + '.meta', 'w') as f:
         if simulation is not None:
             f.write(" simulation = { '" + simulation + "' };\n")
@@ -600,5 +612,3 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
                 f.write("\n")
             f.write(" };\n")
 
-    arr.astype(tp).tofile(fbase + '.data')
-
-- 
2.43.0


From f446bf571d7e01e12b643df63c2d4e92816b4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 09/26] fix: MDS files in a directory that cannot be read are
 not missing

---
 simplegrid/mds.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 87ecd24..717eac6 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -1,3 +1,4 @@
+import fnmatch
 import os
 import sys
 import re
@@ -159,12 +160,28 @@ def fromfileshape(filename,dtype,shape=None,**kwargs):
     return np.fromfile(filename, dtype, count=count, **kwargs).reshape(shape)
 
 
+def findfiles(pattern):
+    """ like glob.glob, but raise an error if a directory cannot be read, rather
+        than returning what would look like missing files """
+    dirname, basename = os.path.split(pattern)
+    dirs = findfiles(dirname) if glob.has_magic(dirname) else [dirname]
+    files = []
+    for d in dirs:
+        try:
+            names = os.listdir(d or os.curdir)
+        except (FileNotFoundError, NotADirectoryError):
+            continue
+        if not basename.startswith('.'):
+            names = [ n for n in names if not n.startswith('.') ]
+        files += [ os.path.join(d, n) for n in fnmatch.filter(names, basename) ]
+    return files
+
+
 def scanforfiles(fname):
     """ return list of iteration numbers for which metafiles with base fname exist """
-    import glob
-    allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.001.001.meta')
+    allfiles = findfiles(fname + '.' + 10*'[0-9]' + '.001.001.meta')
     if len(allfiles) == 0:
-        allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.meta')
+        allfiles = findfiles(fname + '.' + 10*'[0-9]' + '.meta')
         off = -5
     else:
         off = -13
@@ -326,7 +343,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
         else:
             fname = fnamearg
 
-        metafiles = glob.glob(fname + 2*('.'+3*'[0-9]') + '.meta') or glob.glob(fname+'.meta')
+        metafiles = findfiles(fname + 2*('.'+3*'[0-9]') + '.meta') or findfiles(fname+'.meta')
         if len(metafiles) == 0:
             raise IOError('No files found for ' + fname + '.meta')
 
-- 
2.43.0


From 244f07adf4f8e1e4ab0cae5185d5ba20af3c8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 10/26] fix: mds2mitgrid must not ignore grid files that it
 cannot read

---
 simplegrid/mds.py         | 6 +++++-
 simplegrid/mds2mitgrid.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 717eac6..f5f51b8 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -32,6 +32,10 @@ class ParseError(ValueError):
                          + ('in: ' + _currentline,))
 
 
+class NoFilesError(IOError):
+    """ there are no metafiles with the requested name """
+
+
 # these deal with comments in the metafile
 
 _comment_pattern = re.compile(
@@ -345,7 +349,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
         metafiles = findfiles(fname + 2*('.'+3*'[0-9]') + '.meta') or findfiles(fname+'.meta')
         if len(metafiles) == 0:
-            raise IOError('No files found for ' + fname + '.meta')
+            raise NoFilesError('No files found for ' + fname + '.meta')
 
         if verbose: warning(metafiles[0])
 
diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 3696226..6598cc6 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -34,7 +34,7 @@ def mds2mitgrid(rundir='./',verbose=False):
             if verbose:
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
-        except:
+        except mds.NoFilesError:
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From 5740d4c28d6d30210de9b7e66e7736b4087c2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 11/26] fix: getobcs must write column-ordered boundary data,
 and notice failing writes

---
 simplegrid/getobcs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..31c5f0d 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -476,11 +476,12 @@ def getobcs( strict=False, verbose=False, **kwargs):
             # write accumulated time, depth results:
             for ob in obs:
                 if obs[ob]['do']:
-                    outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
+                    outarray = obs[ob]['ob_array'].astype('>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
-                    fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
-                    fd.close
+                    # column-ordered data (tofile would always write row-ordered
+                    # data, and ignore errors reported when they are flushed):
+                    with open(os.path.join(resultsdir,filename),'wb') as fd:
+                        fd.write(outarray.tobytes(order='F'))
 
 
 def main():
-- 
2.43.0


From 0b54a87250eb5526273cef9652a5ecd0fc55ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 12/26] fix: getobcs must use each time of tiled results once,
 and see unreadable results

---
 simplegrid/getobcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 31c5f0d..154ac69 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import glob
 import numpy as np
 import os.path
 import re
@@ -337,8 +336,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
-    times = sorted( [int(re_time.findall(os.path.basename(f))[0])
-        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))])
+    # (once each, however many tiles there are):
+    times = sorted( {int(re_time.findall(os.path.basename(f))[0])
+        for f in mds.findfiles(os.path.join(parent_resultsdir,'T.*.data'))})
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
@@ -392,7 +392,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
     v_responses      = ['V','VICE']
 
     for response in tracer_responses+u_responses+v_responses:
-        if glob.glob(os.path.join(parent_resultsdir,response+'.*.data')):
+        if mds.findfiles(os.path.join(parent_resultsdir,response+'.*.data')):
             if verbose:
                 print("computing obcs for '{0}'...".format(response))
             # if results exist in database, then for this reponse, and for
-- 
2.43.0


From 13e19860822a90674d417eb7c21dcde50390b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 13/26] fix: getobcs failed on boundary index vectors, and on
 negative south/west indices

---
 simplegrid/getobcs.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 154ac69..4cc7fd5 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -155,10 +155,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
     ni_regional             = kwargs.get('ni_regional')
     nj_regional             = kwargs.get('nj_regional')
     parent_resultsdir       = kwargs.get('parent_resultsdir')
-    ob_jnorth               = np.array(kwargs.get('OB_Jnorth'))
-    ob_jsouth               = np.array(kwargs.get('OB_Jsouth'))
-    ob_ieast                = np.array(kwargs.get('OB_Ieast'))
-    ob_iwest                = np.array(kwargs.get('OB_Iwest'))
+    ob_jnorth, ob_jsouth, ob_ieast, ob_iwest = [        # (None if not provided)
+        None if kwargs.get(ob) is None else np.ravel(kwargs.get(ob))
+        for ob in ('OB_Jnorth','OB_Jsouth','OB_Ieast','OB_Iwest')]
     resultsdir              = kwargs.get('resultsdir')
 
     #
@@ -235,33 +234,40 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if ob_jnorth is None:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
     elif not any(ob_jnorth!=0):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if ob_jsouth is None:
         ob_jsouth = np.ones(ni_regional,dtype=int)
     elif not any(ob_jsouth!=0):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if ob_ieast is None:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
     elif not any(ob_ieast!=0):
         do_ob_ieast = False
-    if not ob_iwest:
+    if ob_iwest is None:
         ob_iwest = np.ones(nj_regional,dtype=int)
     elif not any(ob_iwest!=0):
         do_ob_iwest = False
 
+    for (do_ob,ob,n) in (
+        (do_ob_jnorth,ob_jnorth,ni_regional), (do_ob_jsouth,ob_jsouth,ni_regional),
+        (do_ob_ieast, ob_ieast, nj_regional), (do_ob_iwest, ob_iwest, nj_regional)):
+        if do_ob and len(ob)!=n:
+            raise ValueError(
+                'boundary index vector has {0} values, expected {1}'.format(len(ob),n))
+
     # apply logic to negative indices and convert vectors to zeros-based:
 
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
+        ob_jsouth = np.array([nj_regional+1+j if j<0 else j for j in ob_jsouth]) - 1
     if do_ob_ieast:
         ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
     if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+        ob_iwest = np.array([ni_regional+1+i if i<0 else i for i in ob_iwest]) - 1
 
     #
     # output directory:
-- 
2.43.0


From f60bec7fd497da54b5d2e2e17873ac94657ba7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 14/26] fix: getobcs must not reuse interpolation weights of
 other grids

---
 simplegrid/getobcs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 4cc7fd5..9fb572c 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import argparse
+import hashlib
 import numpy as np
 import os.path
 import re
@@ -80,15 +81,22 @@ def weightfilename( interp_meth, grid_in, grid_out, response_type, netcdf_ext):
         netcdf_ext (str): NetCDF file extension (typically '.nc')
 
     Returns:
-        Regridder filename string, e.g., 'bilinear_20x16_40x32_tracer.nc'
+        Regridder filename string, e.g., 'bilinear_20x16_40x32_tracer_<id>.nc',
+        where <id> identifies the coordinates of both grids, since existing
+        weights are reused.
 
     """
 
-    return '{0}_{1}x{2}_{3}x{4}_{5}.nc'.format(
+    coordinates = hashlib.sha1()
+    for grid in (grid_in,grid_out):
+        for key in ('lon','lat'):
+            coordinates.update(np.asarray(grid[key],dtype='>f8').tobytes())
+
+    return '{0}_{1}x{2}_{3}x{4}_{5}_{6}{7}'.format(
         interp_meth,
         str(grid_in['lon'].shape[0]), str(grid_in['lon'].shape[1]),   # either
         str(grid_out['lon'].shape[0]), str(grid_out['lon'].shape[1]), # lon or lat
-        response_type, netcdf_ext)
+        response_type, coordinates.hexdigest()[:16], netcdf_ext)
 
 
 def getobcs( strict=False, verbose=False, **kwargs):
-- 
2.43.0


From 6e9f0f5958b69ee4f5b4e016ec770489cd4a219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 15/26] fix: rdmds with squeeze=False failed to return all of
 several records

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index f5f51b8..7a0db4c 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -486,7 +486,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            keepers = [itrsislist, np.iterable(rec) or allrec and len(reclist) > 1] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0


From 5d5d359c973ec1d8aabd94ae03755d463cfba4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 16/26] fix: sggetobcs accepts boundary index vectors, and its
 documented default results directory

---
 simplegrid/getobcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 9fb572c..20a534b 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -37,21 +37,21 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From 5c99e596d5e0e90327d78cf9fd9fea4c201904b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 17/26] fix: sgmkgrid rejects missing arguments instead of
 writing a grid of NaN

---
 simplegrid/mkgrid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simplegrid/mkgrid.py b/simplegrid/mkgrid.py
index 645dfe0..793a59f 100644
--- a/simplegrid/mkgrid.py
+++ b/simplegrid/mkgrid.py
@@ -21,21 +21,21 @@ def create_parser():
             simply for orientation purposes. Either way, the output grid will be
             aligned such that 'northwest' is at min i, max j, and 'southeast' is
             at max i, min j.""")
-    parser.add_argument('--lon1', type=float, help="""
+    parser.add_argument('--lon1', type=float, required=True, help="""
         longitude of northwest corner point""")
-    parser.add_argument('--lat1', type=float, help="""
+    parser.add_argument('--lat1', type=float, required=True, help="""
         latitude of northwest corner point""")
-    parser.add_argument('--lon2', type=float, help="""
+    parser.add_argument('--lon2', type=float, required=True, help="""
         longitude of southeast corner point""")
-    parser.add_argument('--lat2', type=float, help="""
+    parser.add_argument('--lat2', type=float, required=True, help="""
         latitude of southeast corner point""")
-    parser.add_argument('--lon_subscale', type=int, help="""
+    parser.add_argument('--lon_subscale', type=int, required=True, help="""
         number of longitudinal subdivisions in the resulting grid (number of
         x-direction tracer cells)""")
-    parser.add_argument('--lat_subscale', type=int, help="""
+    parser.add_argument('--lat_subscale', type=int, required=True, help="""
         number of latitudinal subdivisions in the resulting grid (number of
         y-direction tracer cells)""")
-    parser.add_argument('--outfile', help="""
+    parser.add_argument('--outfile', required=True, help="""
         file to which grid matrices will be written (mitgridfile format)""")
     parser.add_argument('-v','--verbose',action='store_true',help="""
         verbose output""")
-- 
2.43.0


From 4f20e98caa770af49e092c1baffe2aea237f65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 18/26] fix: iterations of an MDS set whose first tile is blank
 were not found

---
 simplegrid/mds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 7a0db4c..28d0b33 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -183,14 +183,15 @@ def findfiles(pattern):
 
 def scanforfiles(fname):
     """ return list of iteration numbers for which metafiles with base fname exist """
-    allfiles = findfiles(fname + '.' + 10*'[0-9]' + '.001.001.meta')
+    # (of any tile, since the first one may be blank)
+    allfiles = findfiles(fname + '.' + 10*'[0-9]' + 2*('.'+3*'[0-9]') + '.meta')
     if len(allfiles) == 0:
         allfiles = findfiles(fname + '.' + 10*'[0-9]' + '.meta')
         off = -5
     else:
         off = -13
 
-    itrs = [ int(s[off-10:off]) for s in allfiles ]
+    itrs = list(dict.fromkeys( int(s[off-10:off]) for s in allfiles ))
     itrs.sort()
     return itrs
 
-- 
2.43.0


From 0597a7a56ca3f9d4f21fe2ab956c91fa34a86db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 19/26] fix: run directories whose names look like patterns
 were not read

---
 simplegrid/mds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 28d0b33..abd5682 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -168,7 +168,12 @@ def findfiles(pattern):
     """ like glob.glob, but raise an error if a directory cannot be read, rather
         than returning what would look like missing files """
     dirname, basename = os.path.split(pattern)
-    dirs = findfiles(dirname) if glob.has_magic(dirname) else [dirname]
+    dirs = [dirname]
+    if glob.has_magic(dirname):
+        try:
+            os.stat(dirname)    # (a directory of that very name, not a pattern)
+        except (FileNotFoundError, NotADirectoryError):
+            dirs = findfiles(dirname)
     files = []
     for d in dirs:
         try:
-- 
2.43.0


From 59bfba12e5b8ae94f1946a5f0464500808199b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 20/26] fix: refuse to join tiles whose edges have only their
 end points in common

matchedges compared the four corners of the tiles only, so tiles with another
number of points along the edge, or with other points, were joined.
---
 simplegrid/matchedges.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..ca4dd3b 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -153,6 +153,14 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
         raise ValueError('Inconsistent edge match for input grids')
 
+    # edges with common end points may still differ in between:
+    if aXG[a_edge_slice].shape != bXG[b_edge_slice].shape:
+        raise ValueError('Edges of input grids have different numbers of points')
+    _,_,dist = geod.inv(
+        aXG[a_edge_slice], aYG[a_edge_slice], bXG[b_edge_slice], bYG[b_edge_slice])
+    if np.amax(dist) > nom_diag*config.POINTS_ARE_CLOSE_ENOUGH:
+        raise ValueError('Edges of input grids have common end points only')
+
     if verbose:
         print(msg)
 
-- 
2.43.0


From fa20fa0f115fa910ac7fc4d7423c156e9099cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 21/26] fix: areas of cells that touch a pole were NaN

---
 simplegrid/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index b73ccf4..71561cf 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -123,6 +123,9 @@ def squad_uarea( cart):
                 A1 = np.arccos((ca-cb*cc)/(sb*sc))
                 B1 = np.arccos((cb-ca*cc)/(sa*sc))
                 C1 = np.arccos((cc-ca*cb)/(sa*sb))
+                if 0. in (sa,sb,sc):
+                    # coincident corners (as at the poles): no area
+                    A1,B1,C1 = np.pi,0.,0.
 
                 # interior angles of second subtriangle:
                 at,bt,ct = ptA, ptC, ptD
@@ -131,6 +134,8 @@ def squad_uarea( cart):
                 A2 = np.arccos((ca-cb*cc)/(sb*sc))
                 B2 = np.arccos((cb-ca*cc)/(sa*sc))
                 C2 = np.arccos((cc-ca*cb)/(sa*sb))
+                if 0. in (sa,sb,sc):
+                    A2,B2,C2 = np.pi,0.,0.
 
                 # area:
                 area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
-- 
2.43.0


From 318e7905f6a23f7017064b44cc803c9566ee19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 22/26] fix: tiles that do not fit the others, or the global
 array, were broadcast or dropped

Reading selected records, or with a memory map, took the shape of the first tile
for that of all tiles, so that a tile of another shape was read in part and
broadcast; and data of a tile outside of the global array vanished.
---
 simplegrid/mds.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index abd5682..9826d21 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -403,6 +403,13 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
             datafile = metafile[:-4] + 'data'
 
+            if tuple( ie-i0 for i0,ie in zip(i0s,ies) ) != recshape:
+                # (would be broadcast from, or to, a single row or column)
+                raise ValueError('Tiles differ in shape: ' + metafile)
+
+            if map2gl in (None,[0,1]) and not all( 0<=i0<ie<=n for i0,ie,n in zip(i0s,ies,gdims) ):
+                raise ValueError('Tile outside of global array: ' + metafile)
+
             if region is not None:
                 if map2gl is None:
                     # overlap of tile with region:
-- 
2.43.0


From b16e37e1ec38ea67af7fa1fb82a2fc4bddc1847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 23/26] fix: of two files for one tile, the one listed last was
 read

---
 simplegrid/mds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 9826d21..23e75fd 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -361,6 +361,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
         if debug: warning('Found',len(metafiles),'metafiles for iteration',it)
 
+        starts = set()
         for metafile in metafiles:
             gdims,i0s,ies,timestep,timeinterval,map2gl,meta = readmeta(metafile)
             if arr is None:
@@ -410,6 +411,11 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             if map2gl in (None,[0,1]) and not all( 0<=i0<ie<=n for i0,ie,n in zip(i0s,ies,gdims) ):
                 raise ValueError('Tile outside of global array: ' + metafile)
 
+            if tuple(i0s) in starts:
+                # (which one would depend on the order in which they are listed)
+                raise ValueError('More than one file for a tile: ' + metafile)
+            starts.add(tuple(i0s))
+
             if region is not None:
                 if map2gl is None:
                     # overlap of tile with region:
-- 
2.43.0


From 6905d78536f18f2a4f4705c7bbd7dbf5cb4bc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 24/26] fix: selected records were read by metadata that do not
 describe the file

Only reading whole files noticed data files of another size (of a run in another
precision, say) than that in their metadata.
---
 simplegrid/mds.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 23e75fd..c515fce 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -164,6 +164,20 @@ def fromfileshape(filename,dtype,shape=None,**kwargs):
     return np.fromfile(filename, dtype, count=count, **kwargs).reshape(shape)
 
 
+def memmapshape(filename,dtype,shape=None):
+    # np.memmap only notices files that are too short; and its default mode, r+,
+    # writes: it extends them
+    checksize(filename, os.path.getsize(filename), dtype, shape)
+    return np.memmap(filename, dtype, mode='r', shape=shape)
+
+
+def checksize(filename,size,dtype,shape):
+    """ raise an error if a file that is not read as a whole does not hold what its
+        metadata say """
+    if size != np.dtype(dtype).itemsize * int(np.prod(shape, dtype=np.int64)):
+        raise ValueError('Size of data file does not match its metadata: ' + filename)
+
+
 def findfiles(pattern):
     """ like glob.glob, but raise an error if a directory cannot be read, rather
         than returning what would look like missing files """
@@ -332,8 +346,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        # (the default mode, r+, writes: it extends files that are too short)
-        readdata = functools.partial(np.memmap, mode='r')
+        readdata = memmapshape
     else:
         recsatonce = allrec
         readdata = fromfileshape
@@ -470,6 +483,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                         arrtile[...] = readdata(datafile, tp, shape=tileshape)[recinds + np.s_[...,J0:Je,I0:Ie]]
             else:
                 f = open(datafile)
+                checksize(datafile, os.fstat(f.fileno()).st_size, tp, (nrecords,) + recshape)
                 for irec,recnum in enumerate(reclist):
                     if recnum < 0: recnum += nrecords
                     f.seek(recnum*count*size)
-- 
2.43.0


From f8ac8830d6a7c4e8f767257aaf974c1b04afc081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 25/26] fix: boundary conditions of results with other depths
 at a later time were incomplete

Depths beyond those of the first time were left out, and a result without depths
was repeated for all of them.
---
 simplegrid/getobcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 20a534b..a0bfba3 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -427,6 +427,10 @@ def getobcs( strict=False, verbose=False, **kwargs):
                             obs[ob]['ob_array'] = np.zeros(obs[ob]['shape'])
                 # get parent results for this response, for this time...:
                 parent_results = mds.rdmds(os.path.join(parent_resultsdir,response),time).T
+                if (parent_results.shape[2:] or (1,)) != (ndepths,):
+                    raise ValueError(
+                        "results for '{0}' at time {1} have other depths than those at time {2}".format(
+                        response,time,times[0]))
                 # for each depth...:
                 for depth_idx in range(ndepths):
                     # ... interpolate to the regional grid...:
-- 
2.43.0


From 32cd2ac33728783743a7cad374fb6e31a3ff55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:51 +0000
Subject: [PATCH 26/26] fix: boundary conditions silently left out responses
 and times whose data files are lost

---
 simplegrid/getobcs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index a0bfba3..9076b82 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -348,11 +348,17 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # get time steps and number of depths from results database:
     #
 
+    # files of a response (data or metadata that lack the other are not ignored,
+    # so that a loss is noticed when they are read):
+    def resultfiles(response):
+        base = os.path.join(parent_resultsdir,response)
+        return mds.findfiles(base+'.*.data') + mds.findfiles(base+'.*.meta')
+
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
     # (once each, however many tiles there are):
     times = sorted( {int(re_time.findall(os.path.basename(f))[0])
-        for f in mds.findfiles(os.path.join(parent_resultsdir,'T.*.data'))})
+        for f in resultfiles('T')})
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
@@ -406,7 +412,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
     v_responses      = ['V','VICE']
 
     for response in tracer_responses+u_responses+v_responses:
-        if mds.findfiles(os.path.join(parent_resultsdir,response+'.*.data')):
+        if resultfiles(response):
             if verbose:
                 print("computing obcs for '{0}'...".format(response))
             # if results exist in database, then for this reponse, and for
-- 
2.43.0

