From aee94b1438c8ada9b2cee19d2fb825849ff9d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:33 +0000
Subject: [PATCH 01/48] fix: use np.isin instead of np.in1d, which current
 numpy no longer has

---
 hyperstatic/core/fe_model/assembly.py | 12 ++++++------
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..820cf93 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
@@ -315,13 +315,13 @@ class Assembly(object):
 
 if __name__ == '__main__':
     # def drop_vector_dof(V:np.array, indices:list):
-    #     keep = ~np.in1d(np.arange(V.shape[0]), indices)
+    #     keep = ~np.isin(np.arange(V.shape[0]), indices)
     #     return V[keep].copy()
 
     # def __drop_matrix_dof(M:spr.coo_matrix, indices:list)->spr.coo_matrix:
     #     C = M
-    #     keepr = ~np.in1d(C.row, indices)
-    #     keepc = ~np.in1d(C.col, indices)
+    #     keepr = ~np.isin(C.row, indices)
+    #     keepc = ~np.isin(C.col, indices)
     #     keep=keepr*keepc
     #     data, row, col = C.data[keep], C.row[keep], C.col[keep]
     #     row2=row.copy()
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From e926a601315eab3e20fc07f80a7985b2305b3860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 02/48] fix: set_beam_releases writes to the model's beams
 (attribute 'beams' does not exist)

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..43f29b4 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From c2c05f06d774bbd93efb769164fec4722b376152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 03/48] fix: Api.add_beam_section_pipe adds a pipe, not a
 rectangle

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..dfc36af 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From a9eb16452a6f42d5c176345ac90ce7fcf7fc76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 04/48] fix: redefining a node, beam or shell keeps its index
 (it got an index already in use or out of range)

---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 43f29b4..3c986d5 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid, kept when an existing node is redefined
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams)) #kept when an existing beam is redefined
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams)) #kept when an existing beam is redefined
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid["shell"].get(name,len(self.__shells)) #kept when an existing shell is redefined
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From 1a5594a12b18dad62a92ba1faffb651f95211103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 05/48] fix: shell connection and location queries work for
 triangles and return coordinates

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 3c986d5..3e5f2f8 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From a374870f05f5acce14623e0d0c1d365ed188b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:59 +0000
Subject: [PATCH 06/48] fix: Api.add_shell passes the section and nodes in the
 model's argument order

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index dfc36af..856cbc9 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From 9f998368bf3e18548e7471ce63739b68e2158f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:59 +0000
Subject: [PATCH 07/48] fix: Api.set_nodal_restraint reports failure for an
 unknown node

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 856cbc9..83e326a 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -557,8 +557,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From dc80ea10cc292274109b21e520388ce2e510086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:22 +0000
Subject: [PATCH 08/48] fix: Api.solve_modal can pass the number of modes to
 the eigen solver

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..b0dc2e6 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,n_modes:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if n_modes is None else n_modes
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From f1b51965cbc962b936ec58690d21cd3c549916a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/48] fix: the eigen solver can extract as many modes as
 there are free DOFs

---
 hyperstatic/core/fe_solver/dynamic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b0dc2e6..c7863fd 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,10 +58,14 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        dof=K_.shape[0] #free DOFs of this case, the case restraints included
+        if k>dof:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%dof)
+            k=dof
+        if k<dof:
+            omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        else: #eigsh cannot extract all the modes
+            omega2s,modes = linalg.eigh(K_.toarray(),M_.toarray())
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
-- 
2.43.0


From 2a9ede762876254c5be88112f9bfdb895a4894bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:22 +0000
Subject: [PATCH 10/48] fix: LoadPattern.get_beam_concentrated returns the
 concentrated load

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From 7266d2d33afb91754042be9f2e01fe90f2903f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 11/48] fix: load-case load dictionaries count the first
 pattern and no longer call a missing method

---
 hyperstatic/core/fe_model/load/__init__.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..16a5fd9 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -96,7 +96,7 @@ class LoadCase(object):
                 if node in res.keys():
                     res[node]+=load*self.__load_factor[patname]
                 else:
-                    res[node]=np.zeros(6)
+                    res[node]=np.zeros(6)+load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -126,7 +126,7 @@ class LoadCase(object):
                 if node in res.keys():
                     res[node]+=load*self.__load_factor[patname]
                 else:
-                    res[node]=np.zeros(6)
+                    res[node]=np.zeros(6)+load*self.__load_factor[patname]
         return res
 
 
@@ -142,13 +142,8 @@ class LoadCase(object):
 
     def get_beam_f_dict(self,ldict):
         res={}
-        for patname,pat in self.__pattern.items():
-            d=pat.get_beam_f_dict(ldict)
-            for beam,load in d.items():
-                if beam in res.keys():
-                    res[beam]+=load*self.__load_factor[patname]
-                else:
-                    res[beam]=np.zeros(6)
+        for beam,l in ldict.items():
+            res[beam]=self.get_beam_f(beam,l)
         return res
 
     def get_settings(self)->dict:
-- 
2.43.0


From 454fb3a4a914a859270024169c8f017bffb1e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 12/48] fix: nodal load time histories work for curves of
 different lengths and as a dictionary

---
 hyperstatic/core/fe_model/load/__init__.py | 23 ++++++----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 16a5fd9..4e9211e 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -85,7 +85,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size,:]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
@@ -99,23 +99,12 @@ class LoadCase(object):
                     res[node]=np.zeros(6)+load*self.__load_factor[patname]
         return res
 
-    def get_nodal_f_time_history_dict(self,name):
-        max_length=0
-        for patname,curve in self.__load_curve.keys():
-            l=curve.shape[1]
-            max_length=max(l,max_length)
+    def get_nodal_f_time_history_dict(self):
         res={}
-        for patname in self.__load_factor.keys():
-            pat=self.__pattern[patname]
-            factor=self.__load_factor[patname]
-            curve=self.__load_curve[patname]
-            d=pat.get_nodal_f_dict()
-            for node,load in d.items():
-                if node in res.keys():
-                    crv=curve[1,:]
-                    fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
-                else:
-                    res[node]=np.zeros((max_length,6))
+        for pat in self.__pattern.values():
+            for node in pat.get_nodal_f_dict().keys():
+                if node not in res.keys():
+                    res[node]=self.get_nodal_f_time_history(node)
         return res
 
     def get_nodal_d_dict(self):
-- 
2.43.0


From a42f9586d2ca6b9be92c8fd0480e2a02dfdc0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:25 +0000
Subject: [PATCH 13/48] fix: static condensation handles several released DOFs
 of a beam, not only the last one

---
 .../core/fe_model/element/line/__init__.py       | 16 ++++++++++++++++
 hyperstatic/core/fe_model/element/line/beam.py   | 15 ++-------------
 .../core/fe_model/element/line/simple_beam.py    | 15 ++-------------
 3 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/__init__.py b/hyperstatic/core/fe_model/element/line/__init__.py
index c8f5ccd..73e9c18 100644
--- a/hyperstatic/core/fe_model/element/line/__init__.py
+++ b/hyperstatic/core/fe_model/element/line/__init__.py
@@ -40,6 +40,22 @@ class Line(Element):
         T[:3,:3]=T[3:6,3:6]=T[6:9,6:9]=T[9:,9:]= V
         return spr.csr_matrix(T)
 
+    @staticmethod
+    def condensate(Ke,re,releases):
+        """Static condensation of the released DOFs, one after the other
+        """
+        k=Ke.toarray()
+        r=np.array(re,dtype=float).reshape(12)
+        for n in np.arange(12):
+            if releases[n] == True:
+                if abs(k[n,n])>1e-9*abs(Ke.diagonal()[n]):
+                    r = r - k[:,n]*r[n]/k[n,n]
+                    k = k - np.outer(k[:,n],k[n,:])/k[n,n]
+                #otherwise nothing is left to resist this DOF
+                r[n]=0
+                k[n,:]=k[:,n]=0
+        return spr.csr_matrix(k),r
+
     def integrate_K(self):
         raise NotImplementedError()
 
diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..e1c73da 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,7 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
-        for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
-        return k_
+        return self.condensate(Ke,np.zeros(12),self.__releases)[0]
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
-        for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
\ No newline at end of file
+        return self.condensate(Ke,re,self.__releases)[1]
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..c577140 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,21 +216,10 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
-        for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
-        return k_
+        return self.condensate(Ke,np.zeros(12),self.__releases)[0]
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
-        for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
+        return self.condensate(Ke,re,self.__releases)[1]
 
 #code here should be revised
     def resolve_element_force(self,Ke,Me,re,ue):
-- 
2.43.0


From 4743d22610e16e5a3c416e97278c9b0870fd84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 14/48] fix: the consistent mass matrix is symmetric in the
 axial DOFs

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index e1c73da..3016992 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index c577140..5225299 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 71895e345e154eca93ca46637cac3a3975dc8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 15/48] fix: axial and torsional interpolation match the nodes
 at relative locations 0 and 1

---
 .../core/fe_model/element/line/beam.py        | 24 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 24 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 3016992..e3692cb 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,38 +162,38 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
         return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 5225299..d717505 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,39 +180,39 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
         return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From 167f8bbca1084f29906fbaafdb1b4fc5112d6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 16/48] fix: interpolated displacement along local axis 3 has
 the sign of the nodal displacements, and get_shape_function returns

---
 hyperstatic/core/fe_model/element/line/beam.py        | 8 +++++---
 hyperstatic/core/fe_model/element/line/simple_beam.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index e3692cb..1f989be 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -170,7 +170,9 @@ class Beam(Line):
         Nb4=lambda xi: (xi**3-xi**2)*self.length
         Nt1=lambda xi: 1-xi
         Nt2=lambda xi: xi
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nc2=lambda xi: -Nb2(xi) #rotation about axis 2 is -dw3/dx
+        Nc4=lambda xi: -Nb4(xi)
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,Nc2,Nb3,Nc4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
@@ -182,7 +184,7 @@ class Beam(Line):
         Nb4=(xi**3-xi**2)*self.length
         Nt1=1-xi
         Nt2=xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
@@ -194,7 +196,7 @@ class Beam(Line):
         Nb4=(3*xi**2-2*xi)*self.length
         Nt1=-1
         Nt2=1
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         return self.condensate(Ke,np.zeros(12),self.__releases)[0]
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index d717505..b69059c 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -188,7 +188,9 @@ class SimpleBeam(Line):
         Nb4=lambda xi: (xi**3-xi**2)*self.length
         Nt1=lambda xi: 1-xi
         Nt2=lambda xi: xi
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nc2=lambda xi: -Nb2(xi) #rotation about axis 2 is -dw3/dx
+        Nc4=lambda xi: -Nb4(xi)
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,Nc2,Nb3,Nc4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
@@ -201,7 +203,7 @@ class SimpleBeam(Line):
         Nb4=(xi**3-xi**2)*self.length
         Nt1=1-xi
         Nt2=xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
@@ -213,7 +215,7 @@ class SimpleBeam(Line):
         Nb4=(3*xi**2-2*xi)*self.length
         Nt1=-1
         Nt2=1
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         return self.condensate(Ke,np.zeros(12),self.__releases)[0]
-- 
2.43.0


From a13ca80bfcff87fc86f7b0972802a29e2e545e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 17/48] fix: beam deformation uses the start node first when
 its index is the larger one

---
 hyperstatic/core/fe_post/beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..e2e617d 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -40,12 +40,12 @@ class BeamResultResolver(ResultResolver):
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
         hids=self.__assembly.get_beam_node_hids(name)
-        mask=[]
+        dofs=[]
         for i in hids:
-            mask.extend(list(range(i*6,i*6+6)))
+            dofs.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
+        dd=d[dofs] #start node first, whatever the numbering
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
         axial=dd[np.isin(range(12),[0,6])]
-- 
2.43.0


From d060cfb300376ef55fdec2a6dfa1c29d532b032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 18/48] fix: beam end forces are computed (stale attribute,
 node instead of DOF indices, loads and releases left out)

---
 hyperstatic/core/fe_model/assembly.py |  8 ++++++++
 hyperstatic/core/fe_post/beam.py      | 13 ++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 820cf93..8571d37 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -51,6 +51,14 @@ class Assembly(object):
     def get_beam_K(self,elm:str):
         return self.__model.get_beam_K(elm)
 
+    def get_beam_condensated_K(self,elm:str):
+        return self.__model.get_beam_K(elm,condensate=True)
+
+    def get_beam_condensated_f(self,elm:str,casename:str):
+        l=self.__model.get_beam_length(elm)
+        re=self.__loadcase[casename].get_beam_f(elm,l)
+        return self.__model.get_beam_condensated_f(elm,re)
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index e2e617d..13bbd55 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,13 +17,16 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
+        path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
         hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
-        return res
+        dofs=[]
+        for i in hids:
+            dofs.extend(list(range(i*6,i*6+6)))
+        T=self.__assembly.get_beam_transform_matrix(name)
+        K=self.__assembly.get_beam_condensated_K(name)
+        f=self.__assembly.get_beam_condensated_f(name,casename)
+        return K.dot(T.dot(d[dofs]))-f
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
         """Resolve beam deformation
-- 
2.43.0


From ed35d0c3c3b1742b8aab4e0dc1a337f7d8c0c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 19/48] fix: nodal reactions are computed from the assembly
 (missing argument, result file that no solver writes)

---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 83e326a..a4d88d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -854,7 +854,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..48ffcac 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -39,7 +39,8 @@ class NodeResultResolver(ResultResolver):
         """
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        K=self.__assembly.assemble_K().tocsr()
+        f=self.__assembly.assemble_f(casename,step-1).toarray().reshape(len(d))
+        f=K.dot(d)-f
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 7e7393160dbe78434ce066cd5ce7226b5306dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 20/48] fix: modal frequencies are derived from the saved
 squares of the angular frequencies

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..9be54c9 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #squares of omega are saved
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From b44cdfeaf139aaebd78f5e9238e06dab3c32f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 21/48] fix: harmonic curves have exactly n points whatever the
 rounding of n*dt

---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From f98c196c5d5f45a2c9e14d05b9ee15d1ee526e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:15 +0000
Subject: [PATCH 22/48] fix: Cartesian.set_by_3pts sets the axes, and the
 origin can be assigned

---
 hyperstatic/common/csys.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..bad5d93 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,20 +134,21 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=O    
+        self.__O=np.array(O)
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__T=np.array([x,y,z])
     
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From 406aca62bda06e39bcd4eab0e2d117c8b519d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:15 +0000
Subject: [PATCH 23/48] fix: I-section weak-axis inertia counts the web between
 the flanges only

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..a9f9aee 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -146,7 +146,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 5accd02bcbfc2c580fc5754b9e5535462b2cfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:15 +0000
Subject: [PATCH 24/48] fix: sections report their shape and radii of gyration

---
 hyperstatic/core/fe_model/section/beam_section.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index a9f9aee..441ebcf 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,6 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
         self.__sizes=sizes
 
 
@@ -94,14 +93,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 4c1349717b57cb17b2c8440e8fe4d5728dc1fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 25/48] fix: Cartesian.set_by_3pts leaves the system as it was
 when it rejects the points

---
 hyperstatic/common/csys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index bad5d93..f5e105a 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,7 +134,6 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=np.array(O)
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
@@ -144,6 +143,7 @@ class Cartesian(object):
         z = np.cross(OA, OB)
         z = z/np.linalg.norm(z)
         y = np.cross(z, x)
+        self.__O=np.array(O)
         self.__T=np.array([x,y,z])
     
     @origin.setter
-- 
2.43.0


From 9b69fd49cbfcb98f9e4e12b9a4398b210237dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 26/48] fix: a horizontal triangle can be given clockwise

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..c6455de 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,7 +16,7 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
-- 
2.43.0


From 3b6e2c876d67a342cbefd27451da937fb3ddd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:49 +0000
Subject: [PATCH 27/48] fix: triangle and quad areas are right in any plane
 (vertical triangles had zero or negative stiffness)

---
 .../core/fe_model/element/quad/__init__.py       | 16 +++-------------
 .../core/fe_model/element/tria/__init__.py       |  7 ++++---
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..b530408 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -19,19 +19,9 @@ class Quad(Element):
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
         #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        trias=[(node_i,node_j,node_k),(node_i,node_k,node_l),(node_i,node_j,node_l),(node_j,node_k,node_l)]
+        area=sum([0.5*np.linalg.norm(np.cross(b.loc-a.loc,c.loc-a.loc)) for a,b,c in trias])
+        self.__area=area/2
 
     @property
     def area(self):
diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index c6455de..47a660f 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -21,9 +21,10 @@ class Tria(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
-                                    [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                                    [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
+        #area vector: the components are the areas projected on the coordinate planes
+        self.__area=0.5*np.linalg.norm([np.linalg.det(np.array([axis,
+                                    node_j.loc-node_i.loc,
+                                    node_k.loc-node_i.loc])) for axis in np.eye(3)])
 
     @property
     def area(self):
-- 
2.43.0


From 7db2335e72a041ae912206a7737c63895b672198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 28/48] fix: beam loads follow the time curve of their pattern,
 like nodal loads

---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8571d37..a87fd91 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -252,7 +252,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 4e9211e..45287d7 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -119,14 +119,14 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            fe+=f*factor*self.__load_curve[patname][1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..640a04b 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From 0604fe7cdb1a23f7edb17aa654324aa55839a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 29/48] fix: direct time integration marches on the last two
 steps and for any number of free DOFs

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index c7863fd..1e82507 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -231,8 +231,8 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
-            d,info=sl.cg(M_hat,f_hat)
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:]) #u[0,:] is at -dt
+            d=sl.spsolve(M_hat.tocsc(),f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
-- 
2.43.0


From ad444a9edf4e14079c9e1f80ce07bd0b56d9368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 30/48] fix: direct time integration uses the damping ratio of
 the case

---
 hyperstatic/core/fe_solver/dynamic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 1e82507..4c5b844 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -200,8 +200,7 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
-- 
2.43.0


From 36ca1aed1f224dc5c927f57b7b1750ca04c9ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 31/48] fix: an interrupted or failing Api.save no longer
 destroys the previously saved model

---
 hyperstatic/core/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index a4d88d3..d3bd2da 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -50,8 +50,10 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            with open(os.path.join(self.__workpath,filename+'.sep'),'wb+') as f:
+            path=os.path.join(self.__workpath,filename+'.sep')
+            with open(path+'.tmp','wb+') as f:
                 pickle.dump(self,f)
+            os.replace(path+'.tmp',path) #an interrupted save leaves the earlier file as it was
             return True
         except Exception as e:
             logging.info("Error saving to file "+ filename +'. Exception: '+str(e))
-- 
2.43.0


From 60760b24f026333e40ba4dad3f0b5f9dbb359a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:30 +0000
Subject: [PATCH 32/48] fix: setting the rotation of a beam again replaces the
 earlier rotation

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 1f989be..ae87683 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation) #from the orientation set before
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index b69059c..23cd227 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation) #from the orientation set before
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From 80c8d7a2db35430a2af3c5cb5159eae68e43f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:30 +0000
Subject: [PATCH 33/48] fix: Model.set_beam_rotation turns the beam instead of
 doing nothing

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 3e5f2f8..169f7a8 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -188,7 +188,7 @@ class Model:
             x,y,z coordinate of reference vector.
         """
         beam=self.__beams[name]
-        pass
+        beam.rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From 4e0d93d22b08a308d2a286149b2f3f57528c2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 34/48] fix: modal and time-history results are queried at the
 right DOFs (restrained ones are not saved)

---
 hyperstatic/core/fe_post/__init__.py | 15 ++++++++++++++-
 hyperstatic/core/fe_post/beam.py     |  6 ++----
 hyperstatic/core/fe_post/node.py     |  6 ++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..0cbbb7d 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -18,4 +18,17 @@ class ResultResolver(object):
 
     @property
     def assembly(self):
-        return self.__assembly
\ No newline at end of file
+        return self.__assembly
+
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        """Displacements of all DOFs (6 per node) at a step.
+        Modal and time-history results are saved at the free DOFs only, the restrained ones are zero.
+        """
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        if 'algorithm' not in self.__assembly.get_loadcase_setting(casename): #static
+            return d
+        n=self.__assembly.node_count*6
+        fixed=self.__assembly.restraintDOF(casename) or self.__assembly.restraintDOF()
+        res=np.zeros(n)
+        res[~np.isin(np.arange(n),fixed)]=d
+        return res
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 13bbd55..3164406 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,8 +17,7 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         dofs=[]
         for i in hids:
@@ -40,8 +39,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         dofs=[]
         for i in hids:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 48ffcac..6f13a76 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,8 +21,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
         return d[hid*6:hid*6+6]
 
@@ -37,8 +36,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         K=self.__assembly.assemble_K().tocsr()
         f=self.__assembly.assemble_f(casename,step-1).toarray().reshape(len(d))
         f=K.dot(d)-f
-- 
2.43.0


From 5dcad4588aa1486f5e84299f7d601fa36b1cd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 35/48] fix: beam end forces at a step use the loads of that
 step

---
 hyperstatic/core/fe_model/assembly.py | 4 ++--
 hyperstatic/core/fe_post/beam.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index a87fd91..0cc40bf 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -54,9 +54,9 @@ class Assembly(object):
     def get_beam_condensated_K(self,elm:str):
         return self.__model.get_beam_K(elm,condensate=True)
 
-    def get_beam_condensated_f(self,elm:str,casename:str):
+    def get_beam_condensated_f(self,elm:str,casename:str,time_step:int=0):
         l=self.__model.get_beam_length(elm)
-        re=self.__loadcase[casename].get_beam_f(elm,l)
+        re=self.__loadcase[casename].get_beam_f(elm,l,time_step)
         return self.__model.get_beam_condensated_f(elm,re)
 
     def get_beam_shape_function(self,elm:str):
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 3164406..a9429e5 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -24,7 +24,7 @@ class BeamResultResolver(ResultResolver):
             dofs.extend(list(range(i*6,i*6+6)))
         T=self.__assembly.get_beam_transform_matrix(name)
         K=self.__assembly.get_beam_condensated_K(name)
-        f=self.__assembly.get_beam_condensated_f(name,casename)
+        f=self.__assembly.get_beam_condensated_f(name,casename,step-1)
         return K.dot(T.dot(d[dofs]))-f
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
-- 
2.43.0


From e7278c792c3d291514acadcff6ff940b753d0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 36/48] fix: a load curve that has ended contributes no load,
 the last step of a time history can be queried

---
 hyperstatic/core/fe_model/load/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 45287d7..c8183d5 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -60,6 +60,10 @@ class LoadCase(object):
     #         fn+=f*factor   
     #     return fn
 
+    def __get_curve_value(self,patname,time_step):
+        crv=self.__load_curve[patname][1,:]
+        return crv[time_step] if time_step<crv.size else 0. #no load after the end of the curve
+
     def get_nodal_f(self,name,time_step=0):
         fn=np.zeros(6)
         for patname,factor in self.__load_factor.items():
@@ -67,7 +71,7 @@ class LoadCase(object):
             f=pat.get_nodal_f(name)
             if f is None:
                 continue
-            fn+=f*factor*self.__load_curve[patname][1,time_step]
+            fn+=f*factor*self.__get_curve_value(patname,time_step)
         return fn
 
     def get_nodal_f_time_history(self,name):
@@ -126,7 +130,7 @@ class LoadCase(object):
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor*self.__load_curve[patname][1,time_step]
+            fe+=f*factor*self.__get_curve_value(patname,time_step)
         return fe
 
     def get_beam_f_dict(self,ldict):
-- 
2.43.0


From 37b66064b392e914a0c287535dd0811faf95c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:33 +0000
Subject: [PATCH 37/48] fix: plate bending of quad shells uses the inverse
 Jacobian (only square elements were right)

---
 .../fe_model/meta/plates/metaDKQ/__init__.py  |   4 +-
 .../meta/plates/metaDKQ/wrapped_code_0.c      | 288 +++++++++---------
 2 files changed, 146 insertions(+), 146 deletions(-)

diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
index 1c685cc..9b4aa24 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/__init__.py
@@ -102,10 +102,10 @@ J22=0.25*(y32+y41+xi*(y12+y34))
 J=syp.Matrix([[J11,J12],[J21,J22]])
 
 detJ=1/8*(y42*x31-y31*x42)+xi/8*(y34*x21-y21*x34)+eta/8*(y41*x32-y32*x41)
-j11=J11/detJ
+j11=J22/detJ
 j12=-J12/detJ
 j21=-J21/detJ
-j22=J22/detJ
+j22=J11/detJ
 
 ddx=lambda f : syp.diff(f,xi)
 ddy=lambda f : syp.diff(f,eta)
diff --git a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
index 04f0a45..a418196 100644
--- a/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
+++ b/hyperstatic/core/fe_model/meta/plates/metaDKQ/wrapped_code_0.c
@@ -10,149 +10,149 @@
 
 void autofunc(double E, double mu, double t, double xi, double eta, double x1, double y1, double x2, double y2, double x3, double y3, double x4, double y4, double *out_3370079445872163030) {
 
-   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
-   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[0] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[1] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[2] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[3] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[4] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[5] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[6] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[7] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[8] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[9] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[10] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[11] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[12] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[13] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[14] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[15] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[16] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[17] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[18] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[19] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[20] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[21] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[22] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[23] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[24] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[25] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[26] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[27] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[28] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[29] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[30] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[31] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[32] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[33] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[34] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[35] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[36] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[37] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[38] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[39] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[40] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[41] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[42] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[43] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[44] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[45] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[46] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[47] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[48] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[49] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[50] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[51] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[52] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[53] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[54] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[55] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[56] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[57] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[58] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[59] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[60] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[61] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[62] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[63] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[64] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[65] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[66] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[67] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[68] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[69] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[70] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[71] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[72] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[73] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[74] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[75] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[76] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[77] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[78] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[79] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[80] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[81] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[82] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[83] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[84] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[85] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[86] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[87] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[88] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[89] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[90] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[91] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[92] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[93] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[94] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[95] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[96] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[97] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[98] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[99] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[100] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[101] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[102] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[103] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[104] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[105] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[106] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[107] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[108] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[109] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[110] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[111] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[112] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[113] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[114] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[115] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[116] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[117] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[118] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[119] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[120] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[121] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[122] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[123] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[124] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[125] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[126] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[127] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[128] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[129] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[130] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[131] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[132] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[133] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta - 0.25)*(eta + xi + 1) + (eta - 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[134] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta + xi + 1) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (1 - eta)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[135] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-x1 + x2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(1 - eta)*(-y1 + y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[136] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (eta - 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(1 - eta)*(-0.5*pow(x1 - x2, 2) + 0.25*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (0.25 - 0.25*eta)*(eta - xi + 1) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (eta - 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[137] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.75*x1 - 0.75*x2)*(y1 - y2)/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) + (1 - eta)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(1 - eta)*(0.25*pow(x1 - x2, 2) - 0.5*pow(y1 - y2, 2))/(pow(x1 - x2, 2) + pow(y1 - y2, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (1 - eta)*(-0.25*xi - 0.25) + (0.25*eta - 0.25)*(eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[138] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.5*eta*(-x2 + x3)*(xi + 1)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-x2 + x3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.5*eta*(xi + 1)*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(-y2 + y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[139] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(xi + 1)*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*xi + 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(x2 - x3, 2) + 0.25*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (-eta - 1)*(-0.25*xi - 0.25) + (0.25*eta + 0.25)*(-eta - xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[140] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((1.0*eta*(0.75*x2 - 0.75*x3)*(xi + 1)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.75*x2 - 0.75*x3)*(y2 - y3)/(pow(x2 - x3, 2) + pow(y2 - y3, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(xi + 1)*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(-0.25*xi - 0.25) + (-0.25*xi - 0.25)*(-eta - xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(0.25*pow(x2 - x3, 2) - 0.5*pow(y2 - y3, 2))/(pow(x2 - x3, 2) + pow(y2 - y3, 2)) + (-0.25*eta - 0.25)*(-eta - xi + 1) - (eta + 1)*(-0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[141] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.5*eta*(1 - xi)*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-x3 + x4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(x1 - x4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.5*eta*(1 - xi)*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - 1.5*(0.5 - 0.5*pow(xi, 2))*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.5*xi*(eta + 1)*(-y3 + y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - 1.5*(0.5 - 0.5*pow(eta, 2))*(y1 - y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[142] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + ((-1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((-1.0*eta*(1 - xi)*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25 - 0.25*xi)*(-eta + xi + 1) + (0.5 - 0.5*pow(xi, 2))*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (-eta - 1)*(0.25*xi - 0.25))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (-1.0*xi*(eta + 1)*(-0.5*pow(x3 - x4, 2) + 0.25*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (0.5 - 0.5*pow(eta, 2))*(-0.5*pow(-x1 + x4, 2) + 0.25*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (-eta - 1)*(0.25*xi - 0.25) + (-0.25*eta - 0.25)*(-eta + xi + 1))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
+   out_3370079445872163030[143] = ((1.0/12.0)*E*pow(t, 3)*(1.0/2.0 - 1.0/2.0*mu)*pow((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)), 2)/(1 - pow(mu, 2)) + ((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))) + ((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))*((1.0/12.0)*E*mu*pow(t, 3)*((1.0*eta*(1 - xi)*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)))*(0.25*eta*(x1 - x2 + x3 - x4) - 0.25*x1 + 0.25*x2 + 0.25*x3 - 0.25*x4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.75*x3 - 0.75*x4)*(y3 - y4)/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(-0.75*x1 + 0.75*x4)*(-y1 + y4)/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)))*(0.25*x1 + 0.25*x2 - 0.25*x3 - 0.25*x4 - 0.25*xi*(x1 - x2 + x3 - x4))/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2)) + (1.0/12.0)*E*pow(t, 3)*((1.0*eta*(1 - xi)*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) - (0.5 - 0.5*pow(xi, 2))*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) - (eta + 1)*(0.25*xi - 0.25) + (0.25*xi - 0.25)*(-eta + xi + 1))*(-0.25*eta*(y1 - y2 + y3 - y4) + 0.25*y1 - 0.25*y2 - 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)) + (1.0*xi*(eta + 1)*(0.25*pow(x3 - x4, 2) - 0.5*pow(y3 - y4, 2))/(pow(x3 - x4, 2) + pow(y3 - y4, 2)) + (0.5 - 0.5*pow(eta, 2))*(0.25*pow(-x1 + x4, 2) - 0.5*pow(-y1 + y4, 2))/(pow(-x1 + x4, 2) + pow(-y1 + y4, 2)) + (0.25*eta + 0.25)*(-eta + xi + 1) + (eta + 1)*(0.25*xi - 0.25))*(0.25*xi*(y1 - y2 + y3 - y4) - 0.25*y1 - 0.25*y2 + 0.25*y3 + 0.25*y4)/((1.0/8.0)*eta*(-(-x1 + x4)*(-y2 + y3) + (-x2 + x3)*(-y1 + y4)) + (1.0/8.0)*xi*((-x1 + x2)*(y3 - y4) - (x3 - x4)*(-y1 + y2)) + 0.125*(-x1 + x3)*(-y2 + y4) - 0.125*(-x2 + x4)*(-y1 + y3)))/(1 - pow(mu, 2))))*(-0.125*eta*x1*y2 + 0.125*eta*x1*y3 + 0.125*eta*x2*y1 - 0.125*eta*x2*y4 - 0.125*eta*x3*y1 + 0.125*eta*x3*y4 + 0.125*eta*x4*y2 - 0.125*eta*x4*y3 - 0.125*x1*xi*y3 + 0.125*x1*xi*y4 + 0.125*x1*y2 - 0.125*x1*y4 + 0.125*x2*xi*y3 - 0.125*x2*xi*y4 - 0.125*x2*y1 + 0.125*x2*y3 + 0.125*x3*xi*y1 - 0.125*x3*xi*y2 - 0.125*x3*y2 + 0.125*x3*y4 - 0.125*x4*xi*y1 + 0.125*x4*xi*y2 + 0.125*x4*y1 - 0.125*x4*y3);
 
 }
-- 
2.43.0


From 5ce139ef746131fa4511fef2d68140c9ac406193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:15 +0000
Subject: [PATCH 38/48] fix: triangular shells honour the section type
 (membrane, plate or shell) like quads

---
 hyperstatic/core/fe_model/element/tria/DKT.py | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/DKT.py b/hyperstatic/core/fe_model/element/tria/DKT.py
index af5212d..5ba1a35 100644
--- a/hyperstatic/core/fe_model/element/tria/DKT.py
+++ b/hyperstatic/core/fe_model/element/tria/DKT.py
@@ -25,18 +25,22 @@ class DKT(Tria):
         E=self.__section.E
         mu=self.__section.mu
         t=self.__section.t
-        def func(x):
-            res=[]
-            for xi,eta in zip(x[0],x[1]):
-                res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
-            return np.stack(res,axis=2)
-        scheme = quadpy.t2.get_good_scheme(12)
-        Kp =2*self.area* scheme.integrate(
-            func,
-            [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
-        )
-        bBDBm=T9.get_binary_BDB()
-        Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
+        Km=np.zeros((6,6))
+        Kp=np.zeros((9,9))
+        if self.__section.ele_type=="plate" or self.__section.ele_type=="shell":
+            def func(x):
+                res=[]
+                for xi,eta in zip(x[0],x[1]):
+                    res.append(bBDBp(E,mu,t,xi,eta,*tuple(X_.reshape(X_.size))))
+                return np.stack(res,axis=2)
+            scheme = quadpy.t2.get_good_scheme(12)
+            Kp =2*self.area* scheme.integrate(
+                func,
+                [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]],
+            )
+        if self.__section.ele_type=="membrane" or self.__section.ele_type=="shell":
+            bBDBm=T9.get_binary_BDB()
+            Km = 2*t*self.area*bBDBm(E,mu,t,*tuple(X_.reshape(X_.size)))
         
         K=np.zeros((18,18))
         for i in range(3):
-- 
2.43.0


From e62561f09fe52d180df31b86b030e7f0884ade27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 39/48] fix: Cartesian.set_by_3pts rejects coincident points
 instead of setting undefined axes

---
 hyperstatic/common/csys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index f5e105a..6938fe9 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -136,6 +136,8 @@ class Cartesian(object):
         tol=1e-8
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
+        if not (np.any(OA) and np.any(OB)):
+            raise Exception("Three points should not coincide!!")
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-- 
2.43.0


From 8f8ef7da51df2e71ce61c88c99128b89c2d31d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 40/48] fix: response spectra of records: decay and peak of
 either sign, right frequency, whole record

---
 hyperstatic/app/seismic/wave2spec.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 428d6b5..5674644 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -50,7 +50,7 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     """
     ag=read_wave(os.path.join(file),startline)
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag)
+    ag=0.01*ag*a_max/np.max(np.abs(ag))
     # ag=amptitude(ag,a_max)
     # ag=[0.01*i for i in ag]
     T=np.arange(dt,6.0+dt,dt)
@@ -62,9 +62,9 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     for _T in T:
         _ω=2*np.pi/_T
         Sa,Sv,Sd=duhamel(_ω,ξ,t,ag)
-        sa.append(max(Sa)/9.8)
-        sv.append(max(Sv))
-        sd.append(max(Sd))
+        sa.append(max(abs(Sa))/9.8)
+        sv.append(max(abs(Sv)))
+        sd.append(max(abs(Sd)))
     return T,sa,sv,sd
 
 def duhamel(ω,ζ,t,p):
@@ -76,10 +76,10 @@ def duhamel(ω,ζ,t,p):
     """ 
     dt=(t[-1]-t[0])/(len(t)-1)
     ω_=ω*np.sqrt(1-ζ**2)
-    q=np.exp(-ζ*ω_*t)*np.sin(ω_*t)
+    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)
     Sd=1/ω_*convolve(p,q)[:len(t)]*dt
-    Sv=Sd*ω_
-    Sa=Sv*ω_
+    Sv=Sd*ω
+    Sa=Sv*ω
     return Sa,Sv,Sd
 
 
@@ -94,7 +94,7 @@ def fft2spec(file,dt,ξ,a_max):
     """
     ag=read_wave(os.path.join(file))
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag) #cm/s2 -> m/s2
+    ag=0.01*ag*a_max/np.max(np.abs(ag)) #cm/s2 -> m/s2
     T=np.arange(dt,6.0+dt,dt)
     nex2pow=lambda x: int(round(2**np.ceil(np.log(x)/np.log(2.)))) #求采样点
     im=np.lib.scimath.sqrt(-1)
@@ -110,18 +110,16 @@ def fft2spec(file,dt,ξ,a_max):
     #     H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im)
     #     u=ifft(af*H,Nfft).real*Nfft
     #     Sa.append(max(u)/9.8)
-    n=256#采样点不是太精确，最好取到采样点数
+    n=max(256,len(ag)) #不少于采样点数
     Nfft=nex2pow(n)*16
     f=fftfreq(Nfft,d=dt)
     ω=2*np.pi*f
     def max_response(_T):
         ωₙ=2*np.pi/_T
-        ωd=(1-ξ)**0.5*ωₙ
         af=fft(ag,Nfft)/Nfft    
-        # H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im) #ωd?
-        H=1/((1-(ω/ωd)**2)+2*ξ*(ω/ωd)*im)
+        H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im)
         u=ifft(af*H,Nfft).real*Nfft
-        return np.max(u)/9.8
+        return np.max(np.abs(u))/9.8
     Sa=[max_response(t) for t in T]
     return T,Sa
 
-- 
2.43.0


From f2acc943bd664e03d3d6f7d8bce7764d814d4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 41/48] fix: clear_workspace removes the work directory with
 its contents (os.remove fails on a directory)

---
 hyperstatic/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index d3bd2da..7e4b034 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -2,6 +2,7 @@
 import pickle
 from datetime import datetime
 import os
+import shutil
 import logging
 from typing import Dict
 import numpy as np
@@ -87,7 +88,7 @@ class Api(object):
             return False
         else:
             try:
-                os.remove(workpath)
+                shutil.rmtree(workpath)
                 os.mkdir(workpath)
                 return True
             except Exception as e :
-- 
2.43.0


From e7197d2171444b98fd274c5e71e1ef0f8b19537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 42/48] fix: Lame's first parameter contains Poisson's ratio;
 the stress of an isotropic material can be evaluated

---
 hyperstatic/core/fe_model/material/isotropy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,17 +40,16 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From 9346a6466adc99d55d5a9f4896932066d35bd39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 43/48] fix: the thick plate of TMGQ works on nodal rotations,
 not on slopes

---
 hyperstatic/core/fe_model/element/quad/TMGQ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/quad/TMGQ.py b/hyperstatic/core/fe_model/element/quad/TMGQ.py
index acfe8b3..cb5d553 100644
--- a/hyperstatic/core/fe_model/element/quad/TMGQ.py
+++ b/hyperstatic/core/fe_model/element/quad/TMGQ.py
@@ -62,7 +62,9 @@ class TMGQ(Quad):
                 func_s,
                 quadpy.c2.rectangle_points([-1.0, 1.0], [-1.0, 1.0]),
             )
-            Kp=Ks+Kb
+            #the kernels work on w, dw/dx and dw/dy, the nodes on w and rotations about x and y
+            R=np.kron(np.eye(4),[[1,0,0],[0,0,-1],[0,1,0]])
+            Kp=R.T.dot(Ks+Kb).dot(R)
 
         K=np.zeros((24,24))
         for i in range(4):
-- 
2.43.0


From ba194eb41822198130725eefb238880331d0ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 44/48] fix: amptitude scales a record by its peak of either
 sign

---
 hyperstatic/app/seismic/wave2spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 5674644..7d0f4d5 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -36,7 +36,7 @@ def read_wave(filename,startline=0):
     return list(ag)
 
 def amptitude(wave,a_max):
-    m=max(wave)
+    m=max(abs(i) for i in wave)
     return [i*a_max/m for i in wave]
 
 def wave2spectrum(file,dt,ξ,a_max,startline=1):
-- 
2.43.0


From c0d068990dcde4df674e09e3907fe275f4137f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 45/48] fix: Assembly.get_node_transform_matrix returns the
 transform matrix, not the index

---
 hyperstatic/core/fe_model/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 0cc40bf..83f605c 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
-- 
2.43.0


From 708d22c6011277d450303af8ec46092897a0d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 46/48] fix: refuse shells whose nodes are in a line instead of
 giving them undefined axes

---
 hyperstatic/core/fe_model/element/quad/__init__.py | 4 +++-
 hyperstatic/core/fe_model/element/tria/__init__.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index b530408..575404f 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -11,8 +11,10 @@ class Quad(Element):
         vec1=node_i.loc-node_j.loc
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
-        n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
+        if np.linalg.norm(n)<=tol*np.linalg.norm(vec1)*np.linalg.norm(vec2):
+            raise Exception("Three points should not be in a line!!")
+        n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 47a660f..ac62ab8 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -14,8 +14,10 @@ class Tria(Element):
         vec1=node_i.loc-node_j.loc
         vec2=node_j.loc-node_k.loc
         n=np.cross(vec1,vec2)
-        n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
+        if np.linalg.norm(n)<=tol*np.linalg.norm(vec1)*np.linalg.norm(vec2):
+            raise Exception("Three points should not be in a line!!")
+        n=n/np.linalg.norm(n)
         if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
-- 
2.43.0


From 86c2b2403c0fbf96bf1d21b316d741748a9ad92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 47/48] fix: node locations are handed out as a tuple, as
 documented, not as the node's own array

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 7e4b034..006ba5f 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -136,7 +136,7 @@ class Api(object):
             tuple: 三维坐标
         """
         try:
-            return self.__model.get_node_location(name)
+            return tuple(self.__model.get_node_location(name))
         except Exception as e:
             logging.warning("Error when getting node location of %s"%name+" Exception: "+str(e))
             return None
-- 
2.43.0


From cf7b73e0c582906553d5cdedb0352f248339daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:37 +0000
Subject: [PATCH 48/48] fix: load dictionaries handed out by a pattern do not
 share its arrays

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 50fbfd8..7bcfa35 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -32,7 +32,7 @@ class LoadPattern(object):
             return None
 
     def get_nodal_f_dict(self):
-        return self.__nodal_load.copy()
+        return {node:load.copy() for node,load in self.__nodal_load.items()}
 
     def get_nodal_d(self,name):
         if name in self.__nodal_disp.keys():
@@ -41,7 +41,7 @@ class LoadPattern(object):
             return None
 
     def get_nodal_d_dict(self):
-        return self.__nodal_disp.copy()
+        return {node:disp.copy() for node,disp in self.__nodal_disp.items()}
 
     def get_beam_distributed(self,name):
         if name in self.__beam_distributed.keys():
-- 
2.43.0

