From 05281c27e372b29a1457de03aa74d9e1b21e71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 01/55] fix: use numpy.isin, numpy.in1d was removed from numpy
 2

---
 hyperstatic/core/fe_model/assembly.py | 12 ++++++------
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..820cf93 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
@@ -315,13 +315,13 @@ class Assembly(object):
 
 if __name__ == '__main__':
     # def drop_vector_dof(V:np.array, indices:list):
-    #     keep = ~np.in1d(np.arange(V.shape[0]), indices)
+    #     keep = ~np.isin(np.arange(V.shape[0]), indices)
     #     return V[keep].copy()
 
     # def __drop_matrix_dof(M:spr.coo_matrix, indices:list)->spr.coo_matrix:
     #     C = M
-    #     keepr = ~np.in1d(C.row, indices)
-    #     keepc = ~np.in1d(C.col, indices)
+    #     keepr = ~np.isin(C.row, indices)
+    #     keepc = ~np.isin(C.col, indices)
     #     keep=keepr*keepc
     #     data, row, col = C.data[keep], C.row[keep], C.col[keep]
     #     row2=row.copy()
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From 08fad15860a215bd59c4b2cbeaeca60bd313f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 02/55] fix: redefining a node, beam or shell keeps its index

---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..2f52344 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid, kept when the node is redefined
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid['beam'].get(name,len(self.__beams)) #kept when the beam is redefined
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid['beam'].get(name,len(self.__beams)) #kept when the beam is redefined
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid['shell'].get(name,len(self.__shells)) #kept when the shell is redefined
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From 794fa1c2a454dbb083ce1664881f4155a2094773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 03/55] fix: set_beam_releases reaches the model's beams

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 2f52344..dddb67f 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From d03867c8d3658abd5048ddce6aebdd78ebf0e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 04/55] fix: Api.add_beam_section_pipe adds a pipe, not a
 rectangle

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..dfc36af 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From 70f3eb4b53a887551d0c85b8919c225eebb0b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 05/55] fix: Api.add_shell passes its arguments in the model's
 order

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index dfc36af..856cbc9 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From c43568e7fb354e09b523bc0e936875e8df1189c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 06/55] fix: Api.set_nodal_restraint reports an unknown node as
 a failure

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 856cbc9..83e326a 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -557,8 +557,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From d1c6b7d3628f428e13d3d5caab23eeec1a8326f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 07/55] fix: Api.clear_workspace removes the work directory's
 content

---
 hyperstatic/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 83e326a..722df8b 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -2,6 +2,7 @@
 import pickle
 from datetime import datetime
 import os
+import shutil
 import logging
 from typing import Dict
 import numpy as np
@@ -85,7 +86,7 @@ class Api(object):
             return False
         else:
             try:
-                os.remove(workpath)
+                shutil.rmtree(workpath)
                 os.mkdir(workpath)
                 return True
             except Exception as e :
-- 
2.43.0


From 7c5811b6746d7e1c63492cecbb1d2522a3fed97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:13 +0000
Subject: [PATCH 08/55] fix: condense every released end component of a beam,
 not only the last

---
 hyperstatic/core/fe_model/element/line/beam.py  | 17 +++++++++--------
 .../core/fe_model/element/line/simple_beam.py   | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..30aaa37 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,19 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr()
+        k0 = k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
+        k_ = Ke.tocsr()
+        k0 = k_.diagonal()
         r_ = re.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..90aa14e 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,20 +216,21 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr()
+        k0 = k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
+        k_ = Ke.tocsr()
+        k0 = k_.diagonal()
         r_ = re.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
 
 #code here should be revised
-- 
2.43.0


From b0bfa578bc870c93b4f95f4728324b4257bed3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 09/55] fix: end releases do not remove a beam's mass

---
 hyperstatic/core/fe_model/assembly.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 820cf93..30d4651 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -204,9 +204,7 @@ class Assembly(object):
             i,j=self.__model.get_beam_node_hids(elm)
             T=self.__model.get_beam_transform_matrix(elm)
             Tt = T.transpose()
-            #Static condensation to consider releases
-            Me=self.__model.get_beam_M(elm)
-            Me=self.__model.get_beam_condensated_matrix(elm,Me)
+            Me=self.__model.get_beam_M(elm) #the mass stays whatever is released
 
             Me_ = (Tt*Me*T).tocoo()
 
-- 
2.43.0


From 82dffe58b58dc0187228b51ea44b3244e5ad2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 10/55] fix: the solver expands results with the restraints the
 equations were reduced with

---
 hyperstatic/core/fe_model/assembly.py | 2 ++
 hyperstatic/core/fe_solver/static.py  | 4 ----
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 30d4651..2fca154 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -296,6 +296,8 @@ class Assembly(object):
         else:
             loadcase=self.__loadcase[casename]
             rest=loadcase.get_nodal_restraint_dict()
+            if rest=={}:
+                rest=self.__model.get_nodal_restraint_dict()
             
         dof=[]
         for node in rest.keys():
diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index c90d1fc..6aeb493 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -116,8 +116,6 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
 
         restraintDOF.sort()
         delta=list(delta)
@@ -159,8 +157,6 @@ class StaticSolver(Solver):
 
         logging.info('Done!'+"time="+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
-        if len(restraintDOF)==0:
-            restraintDOF=assembly.restraintDOF()
         for i in restraintDOF: 
             delta=np.insert(delta,i,0,0)
 
-- 
2.43.0


From 770790f82a00bc4e29f62aa6ae9647e6570b8a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 11/55] fix: solving an unstable structure is reported instead
 of storing NaN results

---
 hyperstatic/core/fe_solver/static.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index 6aeb493..cd7b04d 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -114,6 +114,9 @@ class StaticSolver(Solver):
         else:
             raise Exception("NO such solver as "+str(use_solver))
 
+        if not np.all(np.isfinite(delta)):
+            raise Exception("The stiffness matrix is singular, the structure is unstable!")
+
         logging.info('Done!'+" time cost: "+str(time.time()-begin))
         restraintDOF=assembly.restraintDOF(casename) #case restraint first, then model
 
-- 
2.43.0


From c97193a419570dbf936674913588c6df2774a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 12/55] fix: nodal reactions are computed instead of read from
 a file nobody writes

---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 722df8b..3c47c67 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -855,7 +855,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..e2deff0 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -39,7 +39,6 @@ class NodeResultResolver(ResultResolver):
         """
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        f=self.__assembly.assemble_K().dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(-1)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From bf73df3bccf855f0a9f03c168a54fc368ad30ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 13/55] fix: beam end forces are resolved from the beam's own
 displacements, releases and loads

---
 hyperstatic/core/fe_model/assembly.py |  7 +++++++
 hyperstatic/core/fe_post/beam.py      | 10 ++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 2fca154..9157dd6 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -51,6 +51,13 @@ class Assembly(object):
     def get_beam_K(self,elm:str):
         return self.__model.get_beam_K(elm)
 
+    def get_beam_condensated_K(self,elm:str):
+        return self.__model.get_beam_K(elm,condensate=True)
+
+    def get_beam_condensated_f(self,elm:str,casename:str):
+        re=self.__loadcase[casename].get_beam_f(elm,self.__model.get_beam_length(elm))
+        return self.__model.get_beam_condensated_f(elm,re)
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..8dce86e 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,12 +17,14 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
+        path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
+        K=self.__assembly.get_beam_condensated_K(name)
+        f=self.__assembly.get_beam_condensated_f(name,casename)
         hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
+        dd=np.hstack([d[i*6:i*6+6] for i in hids])
+        T=self.__assembly.get_beam_transform_matrix(name)
+        res = K.dot(T.dot(dd))-f
         return res
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
-- 
2.43.0


From 252b157d52d29518e7a06b7e14655c4e62645247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 14/55] fix: beam deformation takes the start node's
 displacements first, whatever the node order

---
 hyperstatic/core/fe_post/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 8dce86e..3e324c2 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -47,7 +47,7 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
+        dd=d[mask]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
         axial=dd[np.isin(range(12),[0,6])]
-- 
2.43.0


From 9f3d9daf9f139d7e0041b88ca2f459a0520dc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 15/55] fix: no debug output when resolving beam deformation

---
 hyperstatic/core/fe_post/beam.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 3e324c2..2704ca7 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -62,8 +62,6 @@ class BeamResultResolver(ResultResolver):
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From 65b70265ea9bf9b4dc5c4007ff09cc52a51f0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 16/55] fix: axial and torsional interpolation use the same
 relative location 0~1 as bending

---
 .../core/fe_model/element/line/beam.py        | 24 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 24 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 30aaa37..14c2203 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,38 +162,38 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
         return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 90aa14e..54012e1 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,39 +180,39 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
         return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From de27c0207efbb5b002b62ed3b098f079295e7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 17/55] fix: deflection along axis 3 has the sign of the nodal
 displacements

---
 hyperstatic/core/fe_model/element/line/beam.py        | 6 +++---
 hyperstatic/core/fe_model/element/line/simple_beam.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 14c2203..b930bb2 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -170,7 +170,7 @@ class Beam(Line):
         Nb4=lambda xi: (xi**3-xi**2)*self.length
         Nt1=lambda xi: 1-xi
         Nt2=lambda xi: xi
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,lambda xi: -Nb2(xi),Nb3,lambda xi: -Nb4(xi),Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
@@ -182,7 +182,7 @@ class Beam(Line):
         Nb4=(xi**3-xi**2)*self.length
         Nt1=1-xi
         Nt2=xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
@@ -194,7 +194,7 @@ class Beam(Line):
         Nb4=(3*xi**2-2*xi)*self.length
         Nt1=-1
         Nt2=1
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         k_ = Ke.tocsr()
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 54012e1..9b9b99f 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -188,7 +188,7 @@ class SimpleBeam(Line):
         Nb4=lambda xi: (xi**3-xi**2)*self.length
         Nt1=lambda xi: 1-xi
         Nt2=lambda xi: xi
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,lambda xi: -Nb2(xi),Nb3,lambda xi: -Nb4(xi),Nt1,Nt2]
 
     
     def interpolate(self,loc):
@@ -201,7 +201,7 @@ class SimpleBeam(Line):
         Nb4=(xi**3-xi**2)*self.length
         Nt1=1-xi
         Nt2=xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
@@ -213,7 +213,7 @@ class SimpleBeam(Line):
         Nb4=(3*xi**2-2*xi)*self.length
         Nt1=-1
         Nt2=1
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         k_ = Ke.tocsr()
-- 
2.43.0


From abad1ef8c35533b7a3b8629a7a9e0eafd26451a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 18/55] fix: Api.solve_modal extracts the number of modes it is
 asked for

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..596c4ce 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,num:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if num is None else num
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From 0257cf1e571728e79d2b2f987dcdfb44b84e4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 19/55] fix: modal analysis can extract all modes, counting the
 DOFs left by the case's own restraints

---
 hyperstatic/core/fe_solver/dynamic.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 596c4ce..82a763f 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,10 +58,16 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        N=K_.shape[0]
+        if k>N:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%N)
+            k=N
+        if k<N:
+            omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        else: #eigsh can not extract all the modes
+            mu,modes=linalg.eigh(M_.toarray(),K_.toarray())
+            omega2s=1/mu[::-1]
+            modes=(modes/np.sqrt(mu))[:,::-1]
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
-- 
2.43.0


From 2338a23d654a32e0237ac2ffa98a01b096b980d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/55] fix: modal frequencies are resolved from omega, not
 from its square

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..4a0d07b 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #omega^2 is stored
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From 6294d4b4a78207eefbbc4464e0a8b6f02c680723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 21/55] fix: mode shapes and time histories are put back on
 their DOFs before they are resolved

---
 hyperstatic/core/fe_post/__init__.py | 10 ++++++++++
 hyperstatic/core/fe_post/beam.py     |  6 ++----
 hyperstatic/core/fe_post/node.py     |  6 ++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..86d55d6 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -12,6 +12,16 @@ class ResultResolver(object):
         with open(filename,"rb") as f:
             self.__assembly:Assembly=pickle.load(f)
 
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        n=self.__assembly.node_count*6
+        if d.size!=n: #modes and time histories are stored without the restrained DOFs
+            free=np.setdiff1d(np.arange(n),self.__assembly.restraintDOF(casename))
+            full=np.zeros(n)
+            full[free]=d
+            d=full
+        return d
+
     @property
     def workpath(self):
         return self.__workpath
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 2704ca7..2f0c11b 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,8 +17,7 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         K=self.__assembly.get_beam_condensated_K(name)
         f=self.__assembly.get_beam_condensated_f(name,casename)
         hids=self.__assembly.get_beam_node_hids(name)
@@ -39,8 +38,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         mask=[]
         for i in hids:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index e2deff0..fb10bda 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,8 +21,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
         return d[hid*6:hid*6+6]
 
@@ -37,8 +36,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         f=self.__assembly.assemble_K().dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(-1)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From d9ddaf985c3d779567671ef483f611fa9b838e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 22/55] fix: direct time integration steps from the last two
 states, for any number of DOFs

---
 hyperstatic/core/fe_solver/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 82a763f..4ce2ac5 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -233,7 +233,7 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:]) #u[0] is u at -dt
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From 55f34f7fdbc52372e5ec3480fa7f6af6a0eda755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 23/55] fix: direct time integration uses the case's damping
 ratio

---
 hyperstatic/core/fe_solver/dynamic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 4ce2ac5..83db691 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -202,8 +202,8 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=damping
+        xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
@@ -211,7 +211,6 @@ class TimeHistorySolver(Solver):
         a0=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(xi_i*omega_j-xi_j*omega_i)
         a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_j+xi_j/omega_i)
         C=(a0*M+a1*K).tocoo()
-        print(a0,a1)
 
         #########Cauchy Damping
 
-- 
2.43.0


From cbe1f4fec481fe470625175ff969a98d91c3cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 24/55] fix: a load case's nodal load dictionary includes the
 first pattern of each node

---
 hyperstatic/core/fe_model/load/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..287fe55 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -93,10 +93,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -123,10 +122,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_d_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
 
-- 
2.43.0


From 2a39ca00179918e8e8bdea29908dce6b090b6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 25/55] fix: member loads of a time history case follow the
 pattern's curve

---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 9157dd6..9731dcb 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -249,7 +249,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 287fe55..e8713cd 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -128,14 +128,14 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            fe+=f*factor*self.__load_curve[patname][1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..640a04b 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From adb63d49ed7f1be8d8f21c6e962e93e6d71b39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 26/55] fix: LoadPattern.get_beam_concentrated returns the
 concentrated load

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From 7780242d66c5804e5eaf3f8bfb77ab82a83e6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 27/55] fix: Cartesian.set_by_3pts turns the axes

---
 hyperstatic/common/csys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..e5534a8 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,16 +134,17 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=O    
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__O=np.array(O)
+        self.__T=np.array([x,y,z])
     
     @origin.setter
     def origin(self,x:float, y:float, z:float):
-- 
2.43.0


From 9017c60080e767612cede7bec337e68ecc24a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 28/55] fix: Cartesian.origin can be assigned

---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index e5534a8..f5e105a 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -147,8 +147,8 @@ class Cartesian(object):
         self.__T=np.array([x,y,z])
     
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From 71395cc3e7b934a9387a6f25bd8b70de43883eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 29/55] fix: radii of gyration of a beam section can be read

---
 hyperstatic/core/fe_model/section/beam_section.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..64b683c 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -94,14 +94,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 337b657289c59a0ef7bd83b333ed7bfb99a47f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 30/55] fix: Lame constant of an isotropic material includes
 Poisson's ratio

---
 hyperstatic/core/fe_model/material/isotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..693ef34 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,7 +40,7 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
-- 
2.43.0


From 9d580b9f145dce914460af7075a2fdab2c3e17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 31/55] fix: consistent mass matrix is symmetric

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index b930bb2..cbd6f55 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 9b9b99f..e57d7da 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 4ef3bd005f8261159b37cf82299bbc41c9929c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 32/55] fix: Assembly.get_node_transform_matrix returns the
 matrix

---
 hyperstatic/core/fe_model/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 9731dcb..dbb570b 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
-- 
2.43.0


From cbdef832e475ae76ac5f9c9ea2c47f74bc644b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 33/55] fix: connection and location of quadrilateral and
 triangular shells can be read

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index dddb67f..7e7c858 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From 7ed33d1c4ff074e968be86c0f755d92bacec8d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 34/55] fix: assigning a beam's rotation again replaces the
 former rotation

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index cbd6f55..89681fc 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index e57d7da..0be2cb6 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From d9172c6b5b23aa86e913d8e70dfea2c355fc99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 35/55] fix: Model.set_beam_rotation rotates the beam

---
 hyperstatic/core/fe_model/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 7e7c858..3da1325 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -187,8 +187,7 @@ class Model:
             beam: hid of beam
             x,y,z coordinate of reference vector.
         """
-        beam=self.__beams[name]
-        pass
+        self.__beams[name].rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From d6584855b5a9ebd7cb8bf8b10efd6b95a5546dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 36/55] fix: area and axes of a triangle do not depend on its
 orientation

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..ef1bb9d 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,14 +16,12 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
-                                    [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                                    [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
+        self.__area=0.5*np.linalg.norm(np.cross(vec1,vec2))
 
     @property
     def area(self):
-- 
2.43.0


From 28b9c08b8972ec0da90b040e5f4cd4ade18f83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 37/55] fix: area of a quadrilateral does not depend on its
 orientation

---
 .../core/fe_model/element/quad/__init__.py       | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..cccc575 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -18,20 +18,8 @@ class Quad(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
-        #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        #half the cross product of the diagonals
+        self.__area=0.5*np.linalg.norm(np.cross(node_k.loc-node_i.loc,node_l.loc-node_j.loc))
 
     @property
     def area(self):
-- 
2.43.0


From 98a5b25e0287c00fc76b2b9a2c9e15bf8245bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 38/55] fix: a load case's time history and member load
 dictionaries can be read

---
 hyperstatic/core/fe_model/load/__init__.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index e8713cd..585bfa8 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -98,9 +98,9 @@ class LoadCase(object):
                 res[node]+=load*self.__load_factor[patname]
         return res
 
-    def get_nodal_f_time_history_dict(self,name):
+    def get_nodal_f_time_history_dict(self):
         max_length=0
-        for patname,curve in self.__load_curve.keys():
+        for patname,curve in self.__load_curve.items():
             l=curve.shape[1]
             max_length=max(l,max_length)
         res={}
@@ -110,11 +110,10 @@ class LoadCase(object):
             curve=self.__load_curve[patname]
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    crv=curve[1,:]
-                    fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
-                else:
+                crv=curve[1,:]
+                if node not in res.keys():
                     res[node]=np.zeros((max_length,6))
+                res[node]+=crv.reshape(crv.size,1).dot(load.reshape(1,6))*factor
         return res
 
     def get_nodal_d_dict(self):
@@ -139,15 +138,7 @@ class LoadCase(object):
         return fe
 
     def get_beam_f_dict(self,ldict):
-        res={}
-        for patname,pat in self.__pattern.items():
-            d=pat.get_beam_f_dict(ldict)
-            for beam,load in d.items():
-                if beam in res.keys():
-                    res[beam]+=load*self.__load_factor[patname]
-                else:
-                    res[beam]=np.zeros(6)
-        return res
+        return dict([(beam,self.get_beam_f(beam,l)) for beam,l in ldict.items()])
 
     def get_settings(self)->dict:
         raise NotImplementedError
-- 
2.43.0


From 603b75b52820dccb25df69857c90f36e16045123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:41 +0000
Subject: [PATCH 39/55] fix: README quick start calls the method that exists

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 28a7faa..f26dee7 100644
--- a/README.md
+++ b/README.md
@@ -52,7 +52,7 @@ api.add_simple_beam("b","A","B",E=2e11,mu=0.3,A=0.0188,I2=4.023e-5,I3=4.771e-4,J
 api.add_loadpattern("pat1")
 
 # 指定结点荷载到样式
-api.set_nodal_force("pat1","B",f3=-1e4)
+api.set_nodal_load("pat1","B",f3=-1e4)
 
 # 定义静力荷载工况
 api.add_static_case("case1")
-- 
2.43.0


From 51d7671b447c2bc752867b91b8104acfe036e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 40/55] fix: patterns of a time history case may have curves of
 different lengths

---
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 585bfa8..fce2e90 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -85,7 +85,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
@@ -113,7 +113,7 @@ class LoadCase(object):
                 crv=curve[1,:]
                 if node not in res.keys():
                     res[node]=np.zeros((max_length,6))
-                res[node]+=crv.reshape(crv.size,1).dot(load.reshape(1,6))*factor
+                res[node][:crv.size]+=crv.reshape(crv.size,1).dot(load.reshape(1,6))*factor
         return res
 
     def get_nodal_d_dict(self):
-- 
2.43.0


From 59e455d017b41e4ef7204e711a3739dd5e0a48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 41/55] fix: the web of an I-section does not overlap its
 flanges in I22

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index 64b683c..cc26483 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -138,7 +138,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 553a4bea96e8aab4a8ed0f8842953094f8ce8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 42/55] fix: shape of a beam section can be read

---
 hyperstatic/core/fe_model/section/beam_section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index cc26483..441ebcf 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,6 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
         self.__sizes=sizes
 
 
-- 
2.43.0


From fd899e149615aa29ee122f7bb6fab7b0e312afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 43/55] fix: a shell whose nodes are in a line is reported
 instead of becoming NaN

---
 hyperstatic/core/fe_model/element/quad/__init__.py | 4 +++-
 hyperstatic/core/fe_model/element/tria/__init__.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index cccc575..6f8de9d 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -11,8 +11,10 @@ class Quad(Element):
         vec1=node_i.loc-node_j.loc
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
-        n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
+        if np.linalg.norm(n)<tol**2:
+            raise Exception("Nodes of a quadrilateral should not be in a line!!")
+        n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index ef1bb9d..76d490e 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -14,8 +14,10 @@ class Tria(Element):
         vec1=node_i.loc-node_j.loc
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
-        n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
+        if np.linalg.norm(n)<tol**2:
+            raise Exception("Nodes of a triangle should not be in a line!!")
+        n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
-- 
2.43.0


From 73bbc5801b91eb212c50070389e1140ea1800d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:43 +0000
Subject: [PATCH 44/55] fix: deformation of a beam follows its own end where
 the end is released

---
 hyperstatic/core/fe_model/assembly.py                 |  4 ++++
 hyperstatic/core/fe_model/element/line/beam.py        | 10 +++++++++-
 hyperstatic/core/fe_model/element/line/simple_beam.py |  8 ++++++++
 hyperstatic/core/fe_model/model.py                    |  4 ++++
 hyperstatic/core/fe_post/beam.py                      |  1 +
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index dbb570b..2350956 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -58,6 +58,10 @@ class Assembly(object):
         re=self.__loadcase[casename].get_beam_f(elm,self.__model.get_beam_length(elm))
         return self.__model.get_beam_condensated_f(elm,re)
 
+    def get_beam_released_displacement(self,elm:str,casename:str,d):
+        re=self.__loadcase[casename].get_beam_f(elm,self.__model.get_beam_length(elm))
+        return self.__model.get_beam_released_displacement(elm,d,re)
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 89681fc..c5975c9 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -212,4 +212,12 @@ class Beam(Line):
             if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
                 r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
                 k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
-        return r_.reshape(12)
\ No newline at end of file
+        return r_.reshape(12)
+
+    def recover_released(self,d,re,Ke):
+        """displacements of the released components, which are not those of the nodes"""
+        d_ = d.copy()
+        rls = self.__releases==True
+        k_ = Ke.toarray()[rls,:]
+        d_[rls] = np.linalg.lstsq(k_[:,rls],re[rls]-k_[:,~rls].dot(d[~rls]),rcond=None)[0]
+        return d_
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 0be2cb6..ef7ae20 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -233,6 +233,14 @@ class SimpleBeam(Line):
                 k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
 
+    def recover_released(self,d,re,Ke):
+        """displacements of the released components, which are not those of the nodes"""
+        d_ = d.copy()
+        rls = self.__releases==True
+        k_ = Ke.toarray()[rls,:]
+        d_[rls] = np.linalg.lstsq(k_[:,rls],re[rls]-k_[:,~rls].dot(d[~rls]),rcond=None)[0]
+        return d_
+
 #code here should be revised
     def resolve_element_force(self,Ke,Me,re,ue):
         """
diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 3da1325..fa7f9f2 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -286,6 +286,10 @@ class Model:
         beam=self.__beams[name]
         K=beam.integrate_K()
         return beam.static_condensate_f(re,K)
+
+    def get_beam_released_displacement(self,name:str,d,re):
+        beam=self.__beams[name]
+        return beam.recover_released(d,re,beam.integrate_K())
     
     def add_shell(self,name:str,section:str,node0:str, node1:str, node2:str, node3:str=None):
         shell_sec=self.__shell_section[section]
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 2f0c11b..03a944d 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -48,6 +48,7 @@ class BeamResultResolver(ResultResolver):
         dd=d[mask]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
+        dd=self.__assembly.get_beam_released_displacement(name,casename,dd)
         axial=dd[np.isin(range(12),[0,6])]
         shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
         shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
-- 
2.43.0


From 66571f9c88249213a54a00e8e6aef401759df22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 45/55] fix: an unstable structure is reported also when
 rounding hides the zero pivot

---
 hyperstatic/core/fe_solver/static.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index cd7b04d..ea05e9a 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -89,7 +89,17 @@ class StaticSolver(Solver):
         A=(K_+K_.T)/2
         A=A.tocsc()
         if use_solver=='direct':
-            delta=sl.spsolve(A,f_)
+            #pivots of the equations scaled to unit diagonal vanish for a mechanism
+            diag=A.diagonal()
+            if np.any(diag<=0):
+                raise Exception("The stiffness matrix is singular, the structure is unstable!")
+            S=spr.diags(1/np.sqrt(diag))
+            delta=np.zeros(N)
+            if N>0:
+                lu=sl.splu((S @ A @ S).tocsc())
+                if np.min(np.abs(lu.U.diagonal()))<1e-12:
+                    raise Exception("The stiffness matrix is singular, the structure is unstable!")
+                delta=S @ lu.solve(S @ f_.reshape(N))
         elif use_solver=='pardiso':
             try:
                 import pypardiso
-- 
2.43.0


From 0c962f14518b8fce6165329a420639b01c1c2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 46/55] fix: releases that leave a beam no stiffness leave no
 rounding residue either

---
 hyperstatic/core/fe_model/element/line/beam.py        | 5 ++++-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index c5975c9..460930d 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -202,7 +202,10 @@ class Beam(Line):
         for n in np.arange(12):
             if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
                 k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
-        return k_
+        #rounding residue where the releases leave no stiffness
+        k_ = k_.toarray()
+        k_[np.abs(k_)<1e-12*np.sqrt(np.outer(np.abs(k0),np.abs(k0)))] = 0
+        return spr.csr_matrix(k_)
 
     def static_condensate_f(self,re,Ke):
         k_ = Ke.tocsr()
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index ef7ae20..a5ef48a 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -221,7 +221,10 @@ class SimpleBeam(Line):
         for n in np.arange(12):
             if self.__releases[n] == True and abs(k_[n,n])>1e-9*abs(k0[n]):
                 k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
-        return k_
+        #rounding residue where the releases leave no stiffness
+        k_ = k_.toarray()
+        k_[np.abs(k_)<1e-12*np.sqrt(np.outer(np.abs(k0),np.abs(k0)))] = 0
+        return spr.csr_matrix(k_)
 
     def static_condensate_f(self,re,Ke):
         k_ = Ke.tocsr()
-- 
2.43.0


From d6826ed7288aa7bb71a3d7c9760977ef60ad23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 47/55] fix: Cartesian tells collinear points in any unit of
 length

---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index f5e105a..22ca395 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -19,11 +19,11 @@ class Cartesian(object):
         Raises:
             Exception: _description_
         """
-        tol=Tolerance.abs_tol()
+        tol=1e-12 #of the sine of the angle, whatever the unit of length
         self.__O=np.array(O)    
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
-        if np.max(np.abs(np.cross(OA,OB)))<tol:
+        if np.linalg.norm(np.cross(OA,OB))<=tol*np.linalg.norm(OA)*np.linalg.norm(OB):
             raise Exception("Three points should not be in a line!!")        
         x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-- 
2.43.0


From 7cbd062b96e6ad3881fb9829d1f85a8a0459b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 48/55] fix: corners in a line are refused for quadrilaterals
 of any size

---
 hyperstatic/core/fe_model/element/quad/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 6f8de9d..5e90ff3 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -12,7 +12,7 @@ class Quad(Element):
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n)<tol**2:
+        if np.linalg.norm(n)<=1e-12*np.linalg.norm(vec1)*np.linalg.norm(vec2):
             raise Exception("Nodes of a quadrilateral should not be in a line!!")
         n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
-- 
2.43.0


From 82901cf4a09047d979689286b6a3e78f6ac687b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:45 +0000
Subject: [PATCH 49/55] fix: coincident points and zero vectors make no
 coordinate system

---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index 22ca395..b7d98f7 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -23,7 +23,7 @@ class Cartesian(object):
         self.__O=np.array(O)    
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
-        if np.linalg.norm(np.cross(OA,OB))<=tol*np.linalg.norm(OA)*np.linalg.norm(OB):
+        if not np.linalg.norm(np.cross(OA,OB))>tol*np.linalg.norm(OA)*np.linalg.norm(OB):
             raise Exception("Three points should not be in a line!!")        
         x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
@@ -137,7 +137,7 @@ class Cartesian(object):
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
-        if  np.abs(np.abs(cos)-1.)<tol:
+        if not np.abs(np.abs(cos)-1.)>=tol:
             raise Exception("Three points should not in a line!!")        
         x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-- 
2.43.0


From d815d2ec14bc8d345847290990ff6d5ab120f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 50/55] fix: invert the Jacobian of the DKQ plate with its
 diagonal in the right places

The inverse of [[J11,J12],[J21,J22]] is [[J22,-J12],[-J21,J11]]/det; the
derivation had J11 and J22 left in place, so bending of any quadrilateral
whose sides along x and y differ was wrong (constant curvature was not
reproduced).  The generated C is corrected the same way.
---
 .../fe_model/meta/plates/metaDKQ/__init__.py  |   4 +-
 .../meta/plates/metaDKQ/wrapped_code_0.c      | 288 +++++++++---------
 2 files changed, 146 insertions(+), 146 deletions(-)

diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
index 1c685cc..9b4aa24 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
@@ -102,10 +102,10 @@ J22=0.25*(y32+y41+xi*(y12+y34))
 J=syp.Matrix([[J11,J12],[J21,J22]])
 
 detJ=1/8*(y42*x31-y31*x42)+xi/8*(y34*x21-y21*x34)+eta/8*(y41*x32-y32*x41)
-j11=J11/detJ
+j11=J22/detJ
 j12=-J12/detJ
 j21=-J21/detJ
-j22=J22/detJ
+j22=J11/detJ
 
 ddx=lambda f : syp.diff(f,xi)
 ddy=lambda f : syp.diff(f,eta)
diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
index 04f0a45..a418196 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
@@ -10,149 +10,149 @@
 
 void autofunc(double E, double mu, double t, double xi, double eta, double x1, double y1, double x2, double y2, double x3, double y3, double x4, double y4, double *out_3370079445872163030) {
 
-   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
 
 }
-- 
2.43.0


From c5169bae9398136b5f1cea6a22c9482762b16daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:35 +0000
Subject: [PATCH 51/55] fix: solve the time steps of a time history directly,
 not by an iterative solver stopped at a relative error of 1e-5

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 83db691..d114cf0 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -226,14 +226,14 @@ class TimeHistorySolver(Solver):
         c2=2*c0
         c3=1/c2
         u[0,:]=u[1,:]-dt*v[1,:]+c3*a[1,:] #central diff
-        M_hat=c0*M_+c1*C_
+        M_hat=sl.splu((c0*M_+c1*C_).tocsc())
 #         L,D,perm=linalg.ldl(M_hat)
         tmax,tmin=assembly.get_max_min_step(casename)
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
             f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:]) #u[0] is u at -dt
-            d,info=sl.cg(M_hat,f_hat)
+            d=M_hat.solve(f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
-- 
2.43.0


From 6c0a2357d512f2dfa2f9ea37839f6789d91c03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 52/55] fix: corners in a line are refused for triangles of any
 size

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 76d490e..d41fcba 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -15,7 +15,7 @@ class Tria(Element):
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n)<tol**2:
+        if np.linalg.norm(n)<=1e-12*np.linalg.norm(vec1)*np.linalg.norm(vec2):
             raise Exception("Nodes of a triangle should not be in a line!!")
         n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
-- 
2.43.0


From cd443a4ffaca73d3a5f4bfcbae1cf873039ea58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 53/55] fix: IsotropicMaterial.D can be called and uses the
 material's Poisson ratio

---
 hyperstatic/core/fe_model/material/isotropy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 693ef34..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -47,10 +47,9 @@ class IsotropicMaterial(Material):
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From b2d662628f8d8ffc6466a7da13b6eb948e7234c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 54/55] fix: sine and cosine curves have exactly the requested
 number of points

---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From 45ee1676863cabbbb91a1b3a5102d5a18724735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:45 +0000
Subject: [PATCH 55/55] fix: a component held by rounding residue alone is
 reported as a mechanism

---
 hyperstatic/core/fe_solver/static.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperstatic/core/fe_solver/static.py b/hyperstatic/core/fe_solver/static.py
index ea05e9a..510ee30 100644
--- a/hyperstatic/core/fe_solver/static.py
+++ b/hyperstatic/core/fe_solver/static.py
@@ -89,6 +89,12 @@ class StaticSolver(Solver):
         A=(K_+K_.T)/2
         A=A.tocsc()
         if use_solver=='direct':
+            #a component with nothing but rounding residue beside the others of its node is not held
+            diag=K.diagonal().reshape(-1,2,3)
+            most=diag.max(axis=2,keepdims=True)
+            held=spr.csr_matrix((diag>1e-13*most).astype(float).reshape(-1,1))
+            if np.any(assembly.assemble_boundary(casename,held)==0):
+                raise Exception("The stiffness matrix is singular, the structure is unstable!")
             #pivots of the equations scaled to unit diagonal vanish for a mechanism
             diag=A.diagonal()
             if np.any(diag<=0):
-- 
2.43.0

