From 30aa3da3197a2077c9eace8be5db1a805ad5e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 01/72] fix: qr() no longer multiplies a factor by zero when a
 diagonal entry is zero

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..c6179bb 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -148,10 +148,12 @@ def qr(mat,signfix):
     q,r=np.linalg.qr(mat)
     if signfix=='q':
         sign=np.sign(np.diag(q))
+        sign[sign==0]=1
         unit=np.diag(sign)
         return q.dot(unit),herm(unit).dot(r)
     if signfix=='r':
         sign=np.sign(np.diag(r))
+        sign[sign==0]=1
         unit=np.diag(sign)
         return q.dot(herm(unit)),unit.dot(r)
 
-- 
2.43.0


From 6d9bafb6b822dfb9eecf1eaeadf597724c6001bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 02/72] fix: prepareTensorSVD fixes the phase of u instead of
 doubling it

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c6179bb..2badf0b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -621,8 +621,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
         if fixphase==True:
             phase=np.angle(np.diag(u))
             unit=np.diag(np.exp(-1j*phase))
-            u=u.dot(herm(unit))
-            v=unit.dot(v)
+            u=u.dot(unit)
+            v=herm(unit).dot(v)
         Z=np.linalg.norm(s)            
         s/=Z
         [size1,size2]=u.shape
-- 
2.43.0


From b9cf11079c54e8a484a34ec11ba3a9d0e7dba6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 03/72] fix: MPS copy keeps the boundary type

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..14ba7e3 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From b986c3711ff1cd822d2ddcb3d37e7ed5707678aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 04/72] fix: MPS.load restores the bond dimension cap

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 14ba7e3..499fe0e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1292,7 +1292,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From 6e26b628e32f84380986e5f6ff46f45a8b0bb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 05/72] fix: MPS.fromList accepts mat=None and a center matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 499fe0e..78a0388 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From 9a34d2ed9063c45c022937cc2db4b960ae0b6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 06/72] fix: complex conjugation of an MPS works and includes
 center matrix and norm

---
 lib/mpslib/mps.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 78a0388..1c08bab 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,17 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
+        self._gamma=[np.conj(g) for g in self._gamma]
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,13 +395,13 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
-- 
2.43.0


From 059b1cd0b160f20adace4b8182e5515af9390381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 07/72] fix: -MPS is the negated state for any number of sites

---
 lib/mpslib/mps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 1c08bab..35f6a2b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -462,7 +462,11 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns the negated state; the sign is stored in _Z
+        """
+        return self*(-1)
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From fc1b7cc93b7c504a69890e9ceb51cb16f7507eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 08/72] fix: measureMatrixElementList returns its result
 including the norms

---
 lib/mpslib/mps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 35f6a2b..4ab48df 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -828,7 +828,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -851,9 +851,10 @@ class MPS:
                 L=mf.matrixElementLocal(self,mps,ops,lb=np.ones((1,1,1)),rb=np.ones((1,1,1)))
                 v1=np.copy(self._mat[0][0])
                 v2=np.copy(mps._mat[0][0])
+                norm=self._Z*np.conj(mps._Z)
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*norm
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
-- 
2.43.0


From 749b9cce86c837f7109e397f6e555f9f024d3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 09/72] fix: applyMPO uses the state it is called on

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4ab48df..0fe06f6 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1264,10 +1264,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From 1f0c81faf9b1cbcec9405a5a03ae8a8b45b8a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 10/72] fix: in-place addition does not count the center matrix
 twice

---
 lib/mpslib/mps.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0fe06f6..4ce718b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -555,6 +555,13 @@ class MPS:
         leaves self unnormalized
         """
         self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
+        #the center matrices are contained in the new tensors
+        self._dtype=np.result_type(*[t.dtype for t in self._tensors])
+        self._mat=np.eye(self._tensors[-1].shape[1])
+        self._connector=np.eye(self._tensors[-1].shape[1])
+        self._position=self._N
+        self._gamma=[]
+        self._lambda=[]
         self._Z=1.0 
         return self
     
-- 
2.43.0


From 39ce9bc718329ba36ef6e06878cb04fd4256d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 11/72] fix: overlap includes the center matrices and works on
 tensor lists

---
 lib/mpslib/mpsfunctions.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 2badf0b..d351502 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -40,20 +40,14 @@ def overlap(mps1,mps2):
     mps1, mps2; list of mps tensors, or two MPS-objects
     returns complex: the overlap; note that mps1._Z*np.conj(mps2._Z) is included in the result!
     """
-    if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):
-        pos1=mps1._position
-        pos2=mps2._position        
-        if (mps1._N-mps1._position)>mps1._position:
-            mps1.__position__(0)
-            mps2.__position__(0)        
-        else:
-            mps1.__position__(mps1._N)
-            mps2.__position__(mps2._N)
-    #if (mps2._N-mps2._position)>mps2._position:
-    #    mps2.__position__(0)
-    #else:
-    #    mps2.__position__(mps2._N)        
-
+    #include the center matrix and the norm of MPS objects
+    Z=1.0
+    if isinstance(mps1,MPSL.MPS):
+        Z=Z*mps1._Z
+        mps1=mps1.tolist()
+    if isinstance(mps2,MPSL.MPS):
+        Z=Z*np.conj(mps2._Z)
+        mps2=mps2.tolist()
 
     if len(mps1)!=len(mps2):
         raise ValueError("overlap(mps1,mps2): mps have to be of same length")
@@ -69,11 +63,7 @@ def overlap(mps1,mps2):
     L=np.reshape(ncon.ncon([mps1[0],np.conj(mps2[0])],[[1,-1,2],[1,-2,2]]),(mps1[0].shape[1],mps2[0].shape[1],1))
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
-        
-    if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
-        mps1.__position__(pos1)
-        mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return np.trace(L[:,:,0])*Z
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From b9be83babc45c90df3e2ab9d848efeba4677e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 12/72] fix: directsum keeps the imaginary part of the second
 operand

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d351502..175d373 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -155,7 +155,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1,m2)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
-- 
2.43.0


From c77f25b0002670206595f9b35bb87c3245094787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 13/72] fix: matrix elements of complex operators between real
 states keep their imaginary part

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 175d373..60fb999 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -481,7 +481,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(*([t.dtype for t in mps1]+[t.dtype for t in mps2]+[o.dtype for o in operators]+[lb,rb]))
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From 655dbbabac87402d756e22c3b8a8f84975b46639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 14/72] fix: canonizeMPS includes the center matrix of a finite
 MPS

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 60fb999..d65aa9f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2261,7 +2261,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            Gamma=mps.tolist()
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From 72726b15ac9fb6a227701cfb413c71b73559a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 15/72] fix: applyTwoSiteGate works with its default Dmax=None

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4ce718b..c66cab5 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1220,6 +1220,8 @@ class MPS:
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
         Strunc=S[S>thresh]
+        if Dmax is None:
+            Dmax=len(S)
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
         Strunc/=np.linalg.norm(Strunc)
-- 
2.43.0


From 06f15f801a6195b9816dc4a3dee0564a97272213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 16/72] fix: measure takes the local dimension from the
 measured site

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c66cab5..731588d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -949,7 +949,7 @@ class MPS:
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
-- 
2.43.0


From 5ab64138d99db46108967d2e77f7bcf363e6f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 17/72] fix: odd fermionic correlators include the full string
 to the left of the first operator

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 731588d..3007547 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -943,8 +943,8 @@ class MPS:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
-- 
2.43.0


From 3f013ad54e24598d4d89014a7ed5d44a367bcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 18/72] fix: measure keeps complex operators on real states

---
 lib/mpslib/mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 3007547..005655a 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -936,6 +936,7 @@ class MPS:
         self.__position__(sites[-1]+1)
         #the parity of the operator string one wants to measure:
         par=len(ops)%2
+        dtype=np.result_type(self._dtype,*ops)
         if par==0 or P==None:
             L=np.zeros((self[sites[s]].shape[0],self[sites[s]].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[sites[s]].shape[0]))
@@ -956,7 +957,7 @@ class MPS:
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
+            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(dtype)
             if P==None or par==0:
                 mpo[0,0,:,:]=op
             elif P!=None and par==1:
-- 
2.43.0


From a3f070f5e7423306e41f399e6cd49696c5db6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 19/72] fix: HAproductZeroSite takes the left bond dimension
 for position 'left'

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d65aa9f..008e251 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -981,7 +981,7 @@ def HAproductZeroSite(L,mpo,mps,R,position,vec):
 
     #contracts vec on the left site of mps
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         mat=np.reshape(vec,(chi1,chi1))
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
-- 
2.43.0


From a17eddc24d859c4a372ee8ea22b847f495e7c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 20/72] fix: projected block lists contract ket with ket legs
 for complex states

---
 lib/mpslib/mpsfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 008e251..52dbd8f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1104,12 +1104,12 @@ def getRprojected(mps,mpo,rightboundary,ldens,rdens):
     R.append(addLayer(rightboundary,mps[-1],mpo[-1],mps[-1],-1))
     lmat=ldens[-2]
     rmat=rdens[-2]
-    R[0][:,:,-1]=R[0][:,:,-1]-np.trace(R[0][:,:,-1].dot(lmat))*rmat
+    R[0][:,:,-1]=R[0][:,:,-1]-np.tensordot(R[0][:,:,-1],lmat,([0,1],[0,1]))*rmat
     for n in range(1,N):
         R.append(addLayer(R[n-1],mps[N-1-n],mpo[N-1-n],mps[N-1-n],-1))
         lmat=ldens[N-1-n]
         rmat=rdens[N-1-n]
-        R[n][:,:,-1]=R[n][:,:,-1]-np.trace(R[n][:,:,-1].dot(lmat))*rmat
+        R[n][:,:,-1]=R[n][:,:,-1]-np.tensordot(R[n][:,:,-1],lmat,([0,1],[0,1]))*rmat
     return R
 
 
@@ -1134,12 +1134,12 @@ def getLprojected(mps,mpo,leftboundary,ldens,rdens):
     L.append(addLayer(leftboundary,mps[0],mpo[0],mps[0],1))
     rmat=rdens[1]
     lmat=ldens[1]    
-    L[0][:,:,0]=L[0][:,:,0]-np.trace(L[0][:,:,0].dot(rmat))*lmat
+    L[0][:,:,0]=L[0][:,:,0]-np.tensordot(L[0][:,:,0],rmat,([0,1],[0,1]))*lmat
     for n in range(1,N):
         L.append(addLayer(L[n-1],mps[n],mpo[n],mps[n],1))
         rmat=rdens[n+1]
         lmat=ldens[n+1]
-        L[n][:,:,0]=L[n][:,:,0]-np.trace(L[n][:,:,0].dot(rmat))*lmat
+        L[n][:,:,0]=L[n][:,:,0]-np.tensordot(L[n][:,:,0],rmat,([0,1],[0,1]))*lmat
 
     return L
 
-- 
2.43.0


From ea84dec5fe50cf7cceac456f5ac53edcd3333b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 21/72] fix: unit-cell energy of an infinite complex state
 contracts ket with ket legs

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 52dbd8f..a8ee960 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1914,7 +1914,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1927,7 +1927,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From 8f0f04fc2f266c7754cc5d4bdc5b3f2a11d55070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 22/72] fix: transfer operators accept single-site MPS objects
 and mixed unit cells

---
 lib/mpslib/mpsfunctions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a8ee960..6590a15 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1497,7 +1497,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1529,9 +1529,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1539,14 +1539,14 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
@@ -1641,15 +1641,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From ca12423c5a22de3ea4b2602bc7390cc842189302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 23/72] fix: OneMinusPseudoTransferOperator uses negative
 momenta

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6590a15..3783f03 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2526,13 +2526,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
-- 
2.43.0


From 531ea37777183875c69d724c647402b58938b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 24/72] fix: TDVPGMRES passes the momentum on

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3783f03..1b739c7 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2580,7 +2580,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
-- 
2.43.0


From 29fcfa924dbf6ed1cd64b7c3aab1c4f565060c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 25/72] fix: TFI_2 uses its own field on the boundary sites

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..21e968f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -109,7 +109,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -139,7 +139,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From eba0747565caf56c30e5af0f6bfe4dae819f7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 26/72] fix: XXZflipped has complex blocks by default

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 21e968f..afacb55 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -493,7 +493,7 @@ class XXZflipped(MPO):
     again the famous Heisenberg Hamiltonian, but in a slightly less common form
     """
 
-  def __init__(self, Delta, J, obc=True, dtype=float):
+  def __init__(self, Delta, J, obc=True, dtype=complex):
     self._Delta = Delta
     self._J = J
     self._dtype = dtype
-- 
2.43.0


From a345df7aecf8aebd25e3b7c0670c112bc9955345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 27/72] fix: XXZflipped uses the coupling of each bond

---
 lib/mpslib/Hamiltonians.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index afacb55..8ecd1ad 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -533,11 +533,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -582,11 +582,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From d55190d3952ead8e497924885c4a37fe407537a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 28/72] fix: MPO.fromMPO and the dtype of generic MPOs

---
 lib/mpslib/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 8ecd1ad..62b8887 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,11 +21,12 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(*self._mpo) if self._N > 0 else float
 
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From 7fe5f6722c6f40934222df735a5e36044abcfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 29/72] fix: SpinlessFermions with obc=False

---
 lib/mpslib/Hamiltonians.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 62b8887..5bc74a9 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -605,7 +605,7 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    assert (len(interaction) == (len(chempot) - 1 if obc else len(chempot)))
 
     self._mpo = []
     self._interaction = interaction
@@ -654,13 +654,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From ca313902015b6dfa1ef595fb47e572d2ffb1c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 30/72] fix: HubbardChain with obc=False accepts one hopping
 per site

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 5bc74a9..a412f9f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -944,8 +944,8 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    assert (len(t_up) == (self._N - 1 if obc else self._N))
+    assert (len(t_down) == (self._N - 1 if obc else self._N))
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From 973eaafb574bb7207c16041bd33fbf5c070306ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 31/72] fix: projectedLiebLinigermpo2 with obc=False

---
 lib/mpslib/Hamiltonians.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index a412f9f..3dda5c5 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1250,7 +1250,27 @@ def projectedLiebLinigermpo2(mu, interact, mass, N, d, dx, obc):
 
     return mpo
 
-  return mpo
+  if obc == False:
+    mpo = []
+    for n in range(0, N):
+      temp = np.zeros((7, 7, d, d))
+
+      temp[0, 0, :, :] = np.eye(d)
+      temp[1, 0, :, :] = proj
+      temp[2, 0, :, :] = num
+      temp[3, 0, :, :] = np.copy(cdag)
+      temp[4, 0, :, :] = np.copy(c)
+      temp[5, 0, :, :] = np.copy(num)
+
+      temp[6, 0, :, :] = mu[n] * num + interact / dx * inpart
+      temp[6, 1, :, :] = 1.0 / (2.0 * mass * (dx**2.)) * num
+      temp[6, 2, :, :] = 1.0 / (2.0 * mass * (dx**2.)) * proj
+      temp[6, 3, :, :] = -1.0 / (2.0 * mass * (dx**2.)) * c
+      temp[6, 4, :, :] = -1.0 / (2.0 * mass * (dx**2.)) * cdag
+      temp[6, 5, :, :] = np.copy((interact * 1.0 / dx) * num) * 0.0
+      temp[6, 6, :, :] = np.eye(d)
+      mpo.append(np.copy(temp))
+    return mpo
 
 
 def projectedLiebLinigermpo3(mu,
-- 
2.43.0


From f3f9c4b40c3f6452977697ab8dafe85df228e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 32/72] fix: LiebLinigerEdens has one block per site

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 3dda5c5..5271a5c 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1441,7 +1441,7 @@ def LiebLinigerEdens(mu, intac, mass, dx, cutoff, N, site):
   mpo.append(temp)
 
   temp = np.zeros((1, 1, cutoff, cutoff))
-  for n in range(site + 1, N):
+  for n in range(site + 2, N):
     temp[0, 0, :, :] = np.eye(cutoff)
     mpo.append(temp)
 
-- 
2.43.0


From 4f787808bdbf5ad1b286bcf2e3db905c165b8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 33/72] fix: open projectedLiebLinigermpo3 on non-uniform grids

---
 lib/mpslib/Hamiltonians.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 5271a5c..44157dc 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1288,10 +1288,7 @@ def projectedLiebLinigermpo3(mu,
   num = cdag.dot(c)
 
   if obc == True:
-    if n < (N - 1):
-      dxtilde = (dx[n + 1] + dx[n]) / 2.
-    if n == (N - 1):
-      dxtilde = (dx[0] + dx[n]) / 2.
+    dxtilde = (dx[1] + dx[0]) / 2.
 
     mpo = []
     temp = np.zeros((1, 9, 2, 2), dtype=dtype)
@@ -1302,12 +1299,12 @@ def projectedLiebLinigermpo3(mu,
     temp[0, 4, :, :] = -1.0 / (2.0 * mass * dxtilde) * cdag / np.sqrt(dx[0])
     temp[0, 5, :, :] = dxtilde * interact * num / dx[0]
     temp[0, 6, :, :] = np.eye(2)
-    temp[0, 7, :, :] = mu[0] / 2.0 * dxtilde * num / dx[n]
+    temp[0, 7, :, :] = mu[0] / 2.0 * num
     temp[0, 8, :, :] = np.eye(2)
     mpo.append(np.copy(temp))
 
     for n in range(1, N - 1):
-      dxtilde = dx[n]
+      dxtilde = (dx[n + 1] + dx[n]) / 2.
       temp = np.zeros((9, 9, 2, 2), dtype=dtype)
       temp[0, 0, :, :] = np.eye(2)
       temp[1, 0, :, :] = np.eye(2) - num
@@ -1324,19 +1321,18 @@ def projectedLiebLinigermpo3(mu,
       temp[8, 4, :, :] = -1.0 / (2.0 * mass * dxtilde) * cdag / np.sqrt(dx[n])
       temp[8, 5, :, :] = interact * dxtilde * num / dx[n]
       temp[8, 6, :, :] = np.eye(2)
-      temp[8, 7, :, :] = mu[n] / 2.0 * dxtilde * num / dx[n]
+      temp[8, 7, :, :] = mu[n] / 2.0 * num
       temp[8, 8, :, :] = np.eye(2)
       mpo.append(np.copy(temp))
 
-    dxtilde = dx[N - 1]
     temp = np.zeros((9, 1, 2, 2), dtype=dtype)
     temp[0, 0, :, :] = np.eye(2)
     temp[1, 0, :, :] = np.eye(2) - num
-    temp[2, 0, :, :] = num / dx[n]
-    temp[3, 0, :, :] = np.copy(cdag) / np.sqrt(dx[n])
-    temp[4, 0, :, :] = np.copy(c) / np.sqrt(dx[n])
-    temp[5, 0, :, :] = np.copy(num) / dx[n]
-    temp[6, 0, :, :] = mu[N - 1] / 2.0 * dxtilde * num / dx[n]
+    temp[2, 0, :, :] = num / dx[N - 1]
+    temp[3, 0, :, :] = np.copy(cdag) / np.sqrt(dx[N - 1])
+    temp[4, 0, :, :] = np.copy(c) / np.sqrt(dx[N - 1])
+    temp[5, 0, :, :] = np.copy(num) / dx[N - 1]
+    temp[6, 0, :, :] = mu[N - 1] / 2.0 * num
     temp[7, 0, :, :] = np.eye(2)
     mpo.append(np.copy(temp))
 
-- 
2.43.0


From 79dcb055bd1fce1a8bbbadbce4c32d1f1bceae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 34/72] fix: UnitcellExLiebLinigermpo takes the potential of
 the right site at the cell boundary

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 44157dc..29ec225 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -1651,7 +1651,7 @@ def UnitcellExLiebLinigermpo(mu, intac, mass, N, dx, cutoff):
   temp[1, 0, :, :] = np.copy(cdag)
   #c
   temp[2, 0, :, :] = np.copy(c)
-  temp[3, 0, :, :] = (mu[n] / 2 + 1.0 /
+  temp[3, 0, :, :] = (mu[N - 1] / 2 + 1.0 /
                       (2.0 * mass * dx**2)) * num + (intac /
                                                      (dx * 2.0)) * inpart
   #c
@@ -1676,7 +1676,7 @@ def UnitcellExLiebLinigermpo(mu, intac, mass, N, dx, cutoff):
   temp[2, 0, :, :] = np.copy(c)
   #temp[2,0,:,:]=t*np.copy(c)
 
-  temp[3, 0, :, :] = (mu[n] / 2.0 + 1.0 /
+  temp[3, 0, :, :] = (mu[0] / 2.0 + 1.0 /
                       (2.0 * mass * dx**2)) * num + (intac /
                                                      (dx * 2.0)) * inpart
   #c
-- 
2.43.0


From 8f1829a7584fba6c62e744dd648c1321076173b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 35/72] fix: twoSiteGate accepts its sites in either order

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 29ec225..726c74f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -48,7 +48,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
-- 
2.43.0


From c2593174e2c554ec31bc23a7d85dd6a52a7a1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 36/72] fix: twoSiteGate for a chain of two sites

---
 lib/mpslib/Hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 726c74f..42ce284 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -72,6 +72,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From b8907deef566d4421855ea80d78faf33f2f66c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 37/72] fix: TimeEvolutionEngine.TEBD returns an engine instead
 of failing on an undefined name

---
 lib/mpslib/engines.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..2fdf993 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1092,11 +1092,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
-        cls._gates=copy.deepcopy(gatecontainer)
-        cls._mps=copy.deepcopy(mps)
-        cls._mpo=copy.deepcopy(mpo)
-        cls._filename=filename        
-        return cls
+        return cls(mps,gatecontainer,filename)
 
     @classmethod
     def TDVP(cls,mps,mpo,filename,lb=None,rb=None):
-- 
2.43.0


From e3c50b5905411b7fe162a710b12a049cb4d37115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 38/72] fix: TEBD advances the elapsed time for verbose=0 as
 well

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 2fdf993..bcdfd79 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1247,8 +1247,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
-- 
2.43.0


From 3eaa37e11a4ccda1cf46d7e4de7dfad2c345e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 39/72] fix: TDVP advances the elapsed time for verbose=0 as
 well

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index bcdfd79..f60bf93 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1371,8 +1371,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))                
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From d2f48d8f38275b085a54cc9b39d71d1cf6ece75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 40/72] fix: TEBD with zero steps leaves the state unchanged

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index f60bf93..8d43bff 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1243,6 +1243,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
+        if numsteps<1:
+            return self._tw,self._t0
         self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
-- 
2.43.0


From c1f5174824c50cef402e3535b18eb9ae9583654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 41/72] fix: LanczosTimeEvolution keeps complex states for a
 real time step

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..3e069b3 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -133,7 +133,7 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
+        self._dtype=np.result_type(state,dt,float)
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-- 
2.43.0


From ce22b409edc0fdb67d1c598aae28facb491a4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 42/72] fix: LanczosTimeEvolution evolves the given vector, not
 its normalised copy

---
 lib/Lanczos/LanczosEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 3e069b3..e75cc05 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -138,7 +138,7 @@ class LanczosTimeEvolution(LanczosEngine):
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
         result=np.zeros(state.shape,dtype=self._dtype)
-        for n in range(min(self._ncv,self._Heff.shape[0])):
+        for n in range(self._Heff.shape[0]):
             result+=self._vecs[n]*U[n,0]
-        return result
+        return result*np.sqrt(self._dot(state.conjugate(),state))
         
-- 
2.43.0


From bda987a17636f5abe8f2320e9ab6128a5ed8e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 43/72] fix: LanczosEngine with a real start vector and a
 complex operator

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index e75cc05..d4b6cfc 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(dtype,initialstate))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
-- 
2.43.0


From e53d2a6b4fdd38df04a9701f4ee8d323bc7f5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 44/72] fix: solve_ivp kernels accept complex steps and real
 initial tensors

---
 lib/mpslib/mpsfunctions.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1b739c7..bf4182c 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1333,28 +1333,41 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    #a float tau is a real time step, i.e. exp(-1j*tau*H); a complex tau evolves with exp(tau*H)
+    if np.issubdtype(type(tau),np.dtype(complex)):
+        fac=np.exp(1j*np.angle(tau))
+        dt=np.abs(tau)
+    elif np.issubdtype(type(tau),np.dtype(float)):
+        fac=-1j
+        dt=tau
+    else:
+        raise TypeError(" evolveTensorsolve_ivp(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float or complex")
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,dt),y0=np.reshape(mps,(chi1*chi2*d)).astype(np.result_type(mps,complex)),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
+    #a float tau is a real time step, i.e. exp(-1j*tau*H); a complex tau evolves with exp(tau*H)
+    if np.issubdtype(type(tau),np.dtype(complex)):
+        fac=np.exp(1j*np.angle(tau))
+        dt=np.abs(tau)
+    elif np.issubdtype(type(tau),np.dtype(float)):
+        fac=-1j
+        dt=tau
+    else:
+        raise TypeError(" evolveMatrixsolve_ivp(L,R,mat,tau,rtol=1E-3,atol=1E-6): tau has to be a float or complex")
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,dt),y0=np.reshape(mat,(chi1*chi2)).astype(np.result_type(mat,complex)),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From efbcae034b85c28364f0020dff867cf899e6499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 45/72] fix: TDVP with solve_ivp integrators evolves in the
 same direction as all other integrators

---
 lib/mpslib/engines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 8d43bff..7deaa57 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1321,7 +1321,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_+0j,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1334,7 +1334,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-(dt_+0j),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1350,7 +1350,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-(dt_+0j),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1361,7 +1361,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_+0j,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
-- 
2.43.0


From 5a4c4132f241c6dbe9fe0d68f16babd39eaa19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 46/72] fix: gexpmv for one-dimensional operators

---
 lib/mpslib/sexpmv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..15e937b 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -9,6 +9,7 @@ and http://www.maths.uq.edu.au/expokit
 @author: Ashley Milsted
 """
 from __future__ import absolute_import, division, print_function
+import numpy as np
 import scipy as sp
 import scipy.linalg as la
 from math import sqrt, log10, copysign, trunc
@@ -29,6 +30,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       else:
             matvec = lambda v: sp.dot(A,v)
 
+      if n == 1: #scalar operator: nothing to project
+            w1 = np.exp(t * matvec(np.ones(1, A.dtype))) * v
+            return w1, True, 0, False, 1
+
       if m is None:
             m = min(20, n-1)
       
-- 
2.43.0


From ede25a383b6a21d437086a885dbfd77b844b3e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 47/72] fix: HAproductBond for rectangular bond matrices

---
 lib/mpslib/mpsfunctions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bf4182c..4267655 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1004,10 +1004,9 @@ def HAproductZeroSiteMat(L,mpo,mps,R,position,mat):
 
 #does the matrix vector product on the bond; vec is a vectorized bond matrix
 def HAproductBond(L,R,vec):
-    chi=np.shape(L)[0]
-    mat=np.reshape(vec,(chi,chi))
+    mat=np.reshape(vec,(np.shape(L)[0],np.shape(R)[0]))
     temp=np.tensordot(L,mat,([0],[0]))
-    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),chi*chi)
+    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),np.shape(L)[1]*np.shape(R)[1])
 
 
 def contractionE(Lexp,mps,Rexp):
-- 
2.43.0


From 4770076ee325b5f2579972b043bbb38d3cc719fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 48/72] fix: TDVP with Radau and LSODA

---
 lib/mpslib/mpsfunctions.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4267655..0988bd9 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1331,6 +1331,21 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
     return np.reshape(v,mat.shape)
 
 
+def integrate_ivp(mv,fac,dt,y0,method,rtol,atol):
+    """
+    solves dy/dt=fac*mv(y) and returns y(dt); Radau and LSODA only handle real systems,
+    hence real and imaginary part are integrated as one real vector for them
+    """
+    y0=y0.astype(np.result_type(y0,complex))
+    if method in ('Radau','LSODA'):
+        n=len(y0)
+        def rhs(t,y):
+            z=fac*mv(y[0:n]+1j*y[n:])
+            return np.concatenate([np.real(z),np.imag(z)])
+        y=solve_ivp(rhs,t_span=(0.0,dt),y0=np.concatenate([np.real(y0),np.imag(y0)]),method=method,rtol=rtol,atol=atol).y[:,-1]
+        return y[0:n]+1j*y[n:]
+    return solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,dt),y0=y0,method=method,rtol=rtol,atol=atol).y[:,-1]
+
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     #a float tau is a real time step, i.e. exp(-1j*tau*H); a complex tau evolves with exp(tau*H)
     if np.issubdtype(type(tau),np.dtype(complex)):
@@ -1346,10 +1361,10 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,dt),y0=np.reshape(mps,(chi1*chi2*d)).astype(np.result_type(mps,complex)),method=method,rtol=rtol,atol=atol)    
+    out=integrate_ivp(mv,fac,dt,np.reshape(mps,(chi1*chi2*d)),method,rtol,atol)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
-    return np.reshape(out.y[:,-1],mps.shape)
+    return np.reshape(out,mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
@@ -1366,8 +1381,8 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,dt),y0=np.reshape(mat,(chi1*chi2)).astype(np.result_type(mat,complex)),method=method,rtol=rtol,atol=atol)
-    return np.reshape(out.y[:,-1],mat.shape)
+    out=integrate_ivp(mv,fac,dt,np.reshape(mat,(chi1*chi2)),method,rtol,atol)
+    return np.reshape(out,mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
     #return np.reshape(solver.dense_output()(tau),mat.shape)    
-- 
2.43.0


From 4c32b25f2c6274a583b3f318d5bc47890d365111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 49/72] fix: LanczosTimeEvolution with a real vector, a real
 step and a complex operator

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index d4b6cfc..2732f7f 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -137,7 +137,7 @@ class LanczosTimeEvolution(LanczosEngine):
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-        result=np.zeros(state.shape,dtype=self._dtype)
+        result=np.zeros(state.shape,dtype=np.result_type(self._dtype,self._vecs[-1],U))
         for n in range(self._Heff.shape[0]):
             result+=self._vecs[n]*U[n,0]
         return result*np.sqrt(self._dot(state.conjugate(),state))
-- 
2.43.0


From f5bb072a8ae218d66d19b6f1169aea4aebb9f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 50/72] fix: Container.update and truncateMPS leave room for
 the left blocks

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7deaa57..881652d 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,7 +113,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
@@ -165,7 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
+        self._L=[None]*len(self._mps)        
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
-- 
2.43.0


From 911d1964adb8fec2969ecd4f75ff81936926fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 51/72] fix: single-site DMRG leaves a normalized state

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 881652d..fd792dc 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -289,6 +289,8 @@ class DMRGengine(Container):
                     print()
                     print ('reached maximum iteration number ',Nmax)
                 break
+        #the last optimized tensor is normalized; the center matrix was set to a normalized identity by __tensor__(clear=True)
+        self._mps._mat=np.eye(self._mps._mat.shape[0])
         self._mps.resetZ()
         return e
 
-- 
2.43.0


From 141ad072c0ab0c6e52eb956ec6dca3824d501bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 52/72] fix: getBoundaryHams returns the energies for a centre
 in the left half as well

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 0988bd9..599b4ba 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1866,7 +1866,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From f375ee8dd17972552de10eedf439f93f4933808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 53/72] fix: unit-cell environments count every local term once

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 599b4ba..1268f91 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1936,6 +1936,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        mpo[0,0,:,:]=0.0 #the local term of this site belongs to the previous unit-cell
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
@@ -1950,6 +1951,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        mpo[-1,0,:,:]=0.0 #the local term of this site belongs to the next unit-cell
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
-- 
2.43.0


From c5dc0a0d48cd0d0622f3e6cadb59ef695deb0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 54/72] fix: binarybasis for more than 53 sites

---
 lib/utils/binaryoperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/binaryoperations.py b/lib/utils/binaryoperations.py
index 923a77c..f97b2a5 100644
--- a/lib/utils/binaryoperations.py
+++ b/lib/utils/binaryoperations.py
@@ -37,7 +37,7 @@ def binarybasis(N,Nup):
         for p in range(Nup-1,N):
             rest=binarybasis(p,Nup-1)
             for n in rest:
-                basis.append(np.uint64(n+2**p))
+                basis.append(n|(np.uint64(1)<<np.uint64(p)))
         return basis
 
 
-- 
2.43.0


From 2d88480a29f1ec78ac74100bf86c7623758bb5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 55/72] fix: Wick expansions count every pairing once and index
 the operators

---
 lib/utils/utilities.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 68971b4..3c88783 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -28,12 +28,10 @@ def SBwick(Mij,cdag,c):
         if isinstance(c,list):
             c=np.array(c).astype(int)
             
+        #the first creator has to be contracted with every one of the annihilators
         corr=0.0
-        for n1 in range(len(cdag)):
-            for n2 in range(len(c)):
-                cdag_p=cdag[cdag!=cdag[n1]]
-                c_p=c[c!=c[n2]]
-                corr=corr+Mij[n1,n2]*SFwick(Mij,cdag_p,c_p)
+        for n2 in range(len(c)):
+            corr=corr+Mij[cdag[0],c[n2]]*SBwick(Mij,cdag[1:],np.delete(c,n2))
         return corr
 
 
@@ -47,13 +45,12 @@ def SFwick(Mij,cdag,c):
         if isinstance(c,list):
             c=np.array(c).astype(int)
             
+        #the first creator has to be contracted with every one of the annihilators; to reach
+        #the annihilator n2 it passes the other creators and n2 annihilators
         corr=0.0
-        for n1 in range(len(cdag)):
-            for n2 in range(len(c)):
-                cdag_p=cdag[cdag!=cdag[n1]]
-                c_p=c[c!=c[n2]]
-                par=(-1)**(len(cdag)-n1+n2)
-                corr=corr+par*Mij[n1,n2]*SFwick(Mij,cdag_p,c_p)
+        for n2 in range(len(c)):
+            par=(-1)**(len(cdag)-1+n2)
+            corr=corr+par*Mij[cdag[0],c[n2]]*SFwick(Mij,cdag[1:],np.delete(c,n2))
         return corr
 
 
-- 
2.43.0


From 9a2d8566cf29ef69df0173b0aa4f320243160adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 56/72] fix: bisection on a grid uses an integer midpoint

---
 lib/utils/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 3c88783..086c6fa 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -638,7 +638,7 @@ def bisection(grid,position):
     g=np.copy(grid)
     while  True:
         N=len(g)
-        i0=(N-N%2)/2
+        i0=(N-N%2)//2
         lgrid=np.copy(g[0:i0])
         rgrid=np.copy(g[i0::])
         if (position>=lgrid[-1])&(position<=rgrid[0]):
-- 
2.43.0


From fbd40ae0f3a4ed415f11113ef34426331eb02dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 57/72] fix: computedx for intervals that do not start at 0

---
 lib/utils/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 086c6fa..41f4894 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -62,11 +62,11 @@ def computedx(x0,x,xN):
     for n in range(len(x)):
         #mat=np.zeros((self.D,self.D,2)).astype(self.type)
         if n==0:
-            dx=(x[n+1]+x[n])/2.0
+            dx=(x[n+1]+x[n])/2.0-x0
         if n>0 and n<(len(x)-1):
             dx=(x[n+1]-x[n-1])/2.0
         if n==len(x)-1:
-            dx=xN-x0-(x[n]+x[n-1])/2.0
+            dx=xN-(x[n]+x[n-1])/2.0
         dxs[n]=dx
     assert(np.abs(np.sum(dxs)-(xN-x0))<1E-12)
     return dxs
-- 
2.43.0


From b957b7ac6ca38af27e3ce80669339152f01c6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 58/72] fix: determineNonLinearCGBeta always returns a
 coefficient

---
 lib/utils/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 41f4894..235d3fc 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -734,7 +734,7 @@ def determineNonLinearCGBeta(nlcgupperthresh,nlcglowerthresh,nlcgnormtol,nlcgres
                 betanew=beta
                 dostde=False
                 itstde=0
-            elif (itstde<stdereset) and (dostde==False):
+            elif dostde==False:
                 betanew=beta
 
         
-- 
2.43.0


From bdd52bc4475834225b1215d9e105fe0d93e395dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 59/72] fix: matchState

---
 lib/utils/utilities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 235d3fc..779d6ea 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -601,11 +601,10 @@ def matchState(U0,U1):
     #use columns of U0 as reference states:
     Ov=herm(U0).dot(U1)
     #for each vectpr U0[:,n], find the state in U1[:,m] with largest overlap , and bring it to position n
-    indy=np.argmax(Ov,1)
-    inds=tuple(np.arange(D),indy)
+    indy=np.argmax(np.abs(Ov),1)
     Uout=np.zeros(U1.shape).astype(U1.dtype)
     for n in range(len(indy)):
-        Uout[n,:]=U1[indy[n],:]
+        Uout[:,n]=U1[:,indy[n]]
     return Uout
         
     
-- 
2.43.0


From e52f60ffe786c3838894977fb5acfefbc8a47916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 60/72] fix: the root finder is reachable as bisection again

---
 lib/utils/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 779d6ea..25054d5 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -633,7 +633,7 @@ def isDiagUnitary(matrix,err=1E-8):
 
 
 #N is the lenght of the fine grid on which grid is defined
-def bisection(grid,position):
+def bisectionGrid(grid,position):
     g=np.copy(grid)
     while  True:
         N=len(g)
-- 
2.43.0


From 7d4aca7ca01c182fd6f869e2596777fb981357d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 61/72] fix: eigsh, eigshbond and lobpcg return several vectors

---
 lib/mpslib/mpsfunctions.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1268f91..169ca6e 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1216,15 +1216,13 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
 
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
         es=[]
         vs=[]
-        esorted=np.sort(e)
-        for n in range(numvecs_returned):
-            es.append(esorted[n])
-            ind=np.nonzero(e==esorted[n])
-            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp)))
+        for n in np.argsort(e)[0:numvecs_returned]:
+            es.append(e[n])
+            vs.append(np.reshape(v[:,n],(chi1p,chi2p,dp)))
         return es,vs
 
 def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
@@ -1255,16 +1253,11 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp))
 
     elif numvecs_returned>1:
-        if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
-            numvecs_returned=numvecs
         es=[]
         vs=[]
-        esorted=np.sort(e)
-        for n in range(numvecs_returned):
-            es.append(esorted[n])
-            ind=np.nonzero(e==esorted[n])
-            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp)))
+        for n in np.argsort(e)[0:numvecs_returned]:
+            es.append(e[n])
+            vs.append(np.reshape(v[:,n],(chi1p,chi2p,dp)))
         return es,vs
 
 
@@ -1444,15 +1437,13 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigshbond: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
-            es=[]
-            vs=[]
-            esorted=np.sort(e)
-            for n in range(numvecs_returned):
-                es.append(esorted[n])
-                ind=np.nonzero(e==esorted[n])
-                vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
+        es=[]
+        vs=[]
+        for n in np.argsort(e)[0:numvecs_returned]:
+            es.append(e[n])
+            vs.append(np.reshape(v[:,n],(chi1p,chi2p)))
         return es,vs
         
     #if position=='left':
-- 
2.43.0


From b25e8cbd65e87b5e8e2774924e88f4cc425f3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 62/72] fix: VUMPS with arnumvecs>1

---
 lib/mpslib/engines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index fd792dc..34a6e2f 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -940,10 +940,9 @@ class VUMPSengine(Container):
         self._gradnorm=np.linalg.norm(AC_-ncon.ncon([self._A,C_],[[-1,1,-3],[1,-2]]))
 
         if self._solver=='AR':
-            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=1,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
+            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=self._arnumvecs,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
             e2,self._mat=mf.eigshbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,position='right',tolerance=self._artol_,numvecs=self._arnumvecs,numcv=self._arncv)
             if self._arnumvecs>1:        
-                self._mat/=np.linalg.norm(self._mat[0])
                 self._gap=e1[1]-e1[0]
                 self._mps[0]=mps[0]
             else:
-- 
2.43.0


From 93affc80064c7a6f3bb28223b8e47ec9959003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 63/72] fix: ncon does not modify the caller's contraction
 order

---
 lib/ncon/ncon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ncon/ncon.py b/lib/ncon/ncon.py
index ac005b2..ffe4a41 100644
--- a/lib/ncon/ncon.py
+++ b/lib/ncon/ncon.py
@@ -40,6 +40,9 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        # connect_graph appends to the order: work on a list of our own
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 0db9d79d8e069060aea13a3a8309bf4f32147f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 64/72] fix: regauge(gauge='left') does not rescale the
 caller's tensor

---
 lib/mpslib/mpsfunctions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 169ca6e..1a29f8f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2376,8 +2376,7 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         #find left eigenvalue
         [eta,v,numeig]=TMeigs(tensor,direction=1,numeig=numeig,init=initial,nmax=nmaxit,tolerance=tol,ncv=ncv)
         #rescale so that eta=1
-        #tensor=tensor/np.sqrt(np.real(eta))
-        tensor/=np.sqrt(np.real(eta))        
+        tensor=tensor/np.sqrt(np.real(eta))
         if np.abs(np.imag(eta))/np.abs(np.real(eta))>thresh:
             print ('in regauge: warning: found eigenvalue eta with large imaginary part: {0}'.format(eta))
         l=np.reshape(v,(chi,chi))
-- 
2.43.0


From 7fc50f1757c50bb909785630a733352c58815c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 65/72] fix: TDVPupdate accepts complex states

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1a29f8f..05f6f85 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2769,7 +2769,7 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     k = TDVPGMRES(tensor,tensor,r,l,inhom,x0=kold,tolerance=tol,maxiteration=1000)
     sqrtl=sp.linalg.sqrtm(l)
     isqrtl=np.linalg.pinv(sqrtl,rcond=1E-15)
-    sqrtr=sp.linalg.sqrtm(r)
+    sqrtr=sp.linalg.sqrtm(r).astype(np.asarray(r).dtype)#sqrtm can return extended precision, which numpy's linalg rejects
     isqrtr=np.linalg.pinv(sqrtr,rcond=1E-15)
     restmat=np.random.rand(d*chi1,chi2*(d-1))*0.0001
     L=np.reshape(np.transpose(tensor,(2,0,1)),(chi1*d,chi2)) #L_{\alpha,(\beta s)}
-- 
2.43.0


From 5eb2072db449970e43e209f620b23fc498bed53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 66/72] fix: TDVPupdate for local dimensions other than two

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 05f6f85..11111fc 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2776,7 +2776,7 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     L=np.hstack([L,restmat])
 
     [U,lam,Vd]=svd(L,full_matrices=1)
-    VL=np.transpose(np.reshape(U[:,chi1::],(d,chi1,chi2)),(1,2,0))
+    VL=np.transpose(np.reshape(U[:,chi1::],(d,chi1,(d-1)*chi2)),(1,2,0))
 
 
     left=initializeLayer(tensor,sqrtl,VL,mpo[0],1);
@@ -2791,14 +2791,14 @@ def TDVPupdate(r,tensor,mpo,kold=None,tol=1E-10):
     for n in range(d):
         VL_[:,:,n]=isqrtl.dot(VL[:,:,n])
 
-    lb=np.reshape(addLayer(lb,tensor,mpo[-1],VL_,1),(chi1,chi1))
+    lb=np.reshape(addLayer(lb,tensor,mpo[-1],VL_,1),(chi1,(d-1)*chi2))
     term2=np.transpose(lb).dot(sqrtr)
 
     #third term:
     VL_=np.zeros(np.shape(VL),dtype=dtype)
     for n in range(d):
         VL_[:,:,n]=isqrtl.dot(VL[:,:,n])
-    lb=np.reshape(GeneralizedMatrixVectorProduct(1,VL_,tensor,k),(chi1,chi1))
+    lb=np.reshape(GeneralizedMatrixVectorProduct(1,VL_,tensor,k),(chi1,(d-1)*chi2))
     term3=np.transpose(lb).dot(sqrtr)
     xopt=term1+term2+term3
     Adot=np.zeros(np.shape(tensor),dtype=dtype)
-- 
2.43.0


From 11e4b81a59ddce245bf00b359c6e7502f669415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 67/72] fix: MPS.imag()

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 005655a..fa75d1e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -446,7 +446,7 @@ class MPS:
         
         return self.__real__(*args,**kwargs)
 
-    def __imag_(self,*args,**kwargs):
+    def __imag__(self,*args,**kwargs):
         """
         return a new MPS with the imaginary part of self
         """
-- 
2.43.0


From 81162c44e823b19165d94cee7f96db2b3f5fce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 68/72] fix: MPSinit honours its dtype

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 11111fc..66d8078 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -587,7 +587,7 @@ def MPSinit(length,D,d,obc=True,dtype=np.dtype(float),scale=1.0,shift=0.5):
     shift: shift of the interval where random numbers are drawn from 
     """
     
-    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=np.dtype(float),scale=scale,shift=shift)
+    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=dtype,scale=scale,shift=shift)
 
 
 
-- 
2.43.0


From 255413c64855254dbeeafb9e7c34c6220e535cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 69/72] fix: IDMRG growth of unit cells with an odd number of
 sites

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 34a6e2f..a5d36bb 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -473,7 +473,7 @@ class IDMRGengine(DMRGengine):
         for n in range(self._mps._N):
             self._mps._tensors[n]=mps[n]
             
-        self._mps._position=int(self._mps._N/2)
+        self._mps._position=self._mps._N-int(self._mps._N/2) #the right half of the old cell comes first
         self._mps._mat=lamR.dot(self._mps._connector).dot(lamL)
         self._mps._connector=connector
         self._mps.__position__(0)
-- 
2.43.0


From fb8f887efc191c5548992678f3f4ee635d1ec278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 70/72] fix: ring of three sites in
 PeriodicMPSengine.getHeffNeff

---
 lib/mpslib/engines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index a5d36bb..f4c5e51 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1478,6 +1478,9 @@ class PeriodicMPSengine(Container):
 
 
     def empty_pow(self,N):
+        if N==0:
+            D=self._mps[0].shape[0]
+            return np.reshape(np.eye(D*D,dtype=self._mps[0].dtype),(D,D,D,D))
         empty=ncon.ncon([self._mps[0],np.conj(self._mps[0])],[[-3,-1,1],[-4,-2,1]])
         for n in range(N-1):
             empty=ncon.ncon([empty,self._mps[0],np.conj(self._mps[0])],[[-1,-2,1,3],[-3,1,2],[-4,3,2]])
-- 
2.43.0


From 6ccec3e19f34c61b5e3c0f747a220d8b6ec36cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 71/72] fix: FinegrainDolfi of tensors with different left and
 right bond dimension

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 66d8078..f607eeb 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -102,12 +102,12 @@ def FinegrainDolfi(mps):
             raise ValueError("in FinegrainDolfi: local hilbert space dimension d has to be 2")
         tensor=np.transpose(np.tensordot(mps[n],T,([2],[0])),(0,2,1,3))
         matrix=np.reshape(tensor,(D1*2,D2*2))
-        U,S,V=np.linalg.svd(matrix)
+        U,S,V=svd(matrix)
 
         leftmat=U.dot(np.diag(np.sqrt(S)))
         rightmat=np.diag(np.sqrt(S)).dot(V)
         lefttens=np.transpose(np.reshape(leftmat,(D1,2,len(S))),(0,2,1))
-        righttens=np.reshape(rightmat,(len(S),D1,2))
+        righttens=np.reshape(rightmat,(len(S),D2,2))
 
         mpsfine.append(np.copy(lefttens))
         mpsfine.append(np.copy(righttens))
-- 
2.43.0


From c6c11632deabfb6078ec426ede13d9fb8cddce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 72/72] fix: checkpoints of TEBD and TDVP with keep_cp=False

---
 lib/mpslib/engines.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index f4c5e51..f5be879 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1214,6 +1214,17 @@ class TimeEvolutionEngine(Container):
             self._maxD=max(self._maxD,D)                
             self._tw+=tw_
 
+    def __checkpoint__(self,name,previous,keep):
+        """
+        saves a checkpoint and, unless keep is True, removes the previous one afterwards
+        (not before: if the program stops in between, a complete checkpoint has to be there)
+        returns: the name of the new checkpoint
+        """
+        self.save(name)
+        if (not keep) and (previous!=None) and os.path.exists(previous+'.pickle'):
+            os.remove(previous+'.pickle')
+        return name
+
     def doTEBD(self,*args,**kwargs):
         """
         see __doTEBD__
@@ -1243,7 +1254,7 @@ class TimeEvolutionEngine(Container):
         """
 
         #even half-step:
-        current='None'
+        current=None
         if numsteps<1:
             return self._tw,self._t0
         self.applyEven(dt/2.0,Dmax,tr_thresh)
@@ -1261,20 +1272,12 @@ class TimeEvolutionEngine(Container):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
-                            os.remove(current+'.pickle')
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
-                    else:
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
+                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    newname=self._filename+'_tebd_cp'+str(self._it)
-                    self.save(newname)                    
+                    current=self.__checkpoint__(self._filename+'_tebd_cp'+str(self._it),current,keep_cp)
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1311,7 +1314,7 @@ class TimeEvolutionEngine(Container):
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
-        current='None'
+        current=None
         self._mps.__position__(0)
         for step in range(numsteps):
             for n in range(self._mps._N):
@@ -1381,14 +1384,7 @@ class TimeEvolutionEngine(Container):
             if verbose>=2:                
                 print('')
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
-                if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
-                else:
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
+                current=self.__checkpoint__(self._filename+'_tdvp_cp'+str(self._it),current,keep_cp)
 
             self._it=self._it+1
         self._mps.position(0)
-- 
2.43.0

