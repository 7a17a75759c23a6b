From cef122529ba898670a49dd3487e3b0dcc8f39bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 01/67] fix: svd() fall-back returned factors of mismatched
 shape for wide matrices

After a LinAlgError the second svd was called with full matrices, so for a
matrix with more columns than rows u.diag(s).v could not be multiplied back.
---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..fe609e4 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -135,7 +135,7 @@ def svd(mat,full_matrices=False,r_thresh=1E-14):
     except np.linalg.linalg.LinAlgError:
         [q,r]=np.linalg.qr(mat)
         r[np.abs(r)<r_thresh]=0.0
-        u_,s,v=np.linalg.svd(r)
+        u_,s,v=np.linalg.svd(r,full_matrices=False)
         u=q.dot(u_)
         print('svd caught a LinAlgError')
     return u,s,v
-- 
2.43.0


From 25c2fbd0669b03ffcc9e2c6390f9f50051662727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 02/67] fix: prepareTruncate returned empty tensors when the
 threshold exceeded all singular values

The largest singular value is always kept.
---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index fe609e4..3cdd347 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -677,7 +677,7 @@ def prepareTruncate(tensor,direction,D=None,thresh=1E-32,r_thresh=1E-14):
             
         Z=np.linalg.norm(s)            
         if thresh>1E-16:
-            s=s[s>thresh]
+            s=s[0:max(1,np.count_nonzero(s>thresh))] #always keep at least one singular value
 
         if D!=None:
 
@@ -707,7 +707,7 @@ def prepareTruncate(tensor,direction,D=None,thresh=1E-32,r_thresh=1E-14):
             warnings.warn('svd: prepareTruncate caught a LinAlgError with dir<0')
         Z=np.linalg.norm(s)                        
         if thresh>1E-16:
-            s=s[s>thresh]
+            s=s[0:max(1,np.count_nonzero(s>thresh))] #always keep at least one singular value
 
         if D!=None:
             if D<len(s):
-- 
2.43.0


From c7a8d9c9d5b0151d0cbbf601919ed70fced59cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 03/67] fix: HAproductZeroSite on the left bond reshaped with
 the right bond dimension

For position='left' the bond matrix lives on the left leg of mps; a site tensor
with different left and right dimension raised an error.
---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3cdd347..743f68d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -989,7 +989,7 @@ def HAproductZeroSite(L,mpo,mps,R,position,vec):
 
     #contracts vec on the left site of mps
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         mat=np.reshape(vec,(chi1,chi1))
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
@@ -1004,7 +1004,7 @@ def HAproductZeroSiteMat(L,mpo,mps,R,position,mat):
         return np.tensordot(term1,R,([2,1],[0,2]))
 
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
         return np.tensordot(term1,R1,([2,1],[0,2]))
-- 
2.43.0


From 6e25bbc6a583acd15d056fd5d710f74e230a92e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 04/67] fix: TransferOperator and MixedTransferOperator raised
 NameError for MPS objects

---
 lib/mpslib/mpsfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 743f68d..bb6b19f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1505,7 +1505,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1537,9 +1537,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1547,14 +1547,14 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
-- 
2.43.0


From be9c6a7c3603232d3c29671c785ad6e320a59601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 05/67] fix: MixedUnitcellTransferOperator used undefined names
 mps1, mps2

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bb6b19f..eff7480 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1649,15 +1649,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From a9d789486f5a62d2bb5621628fe1f125f1b1df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 06/67] fix: OneMinusPseudoTransferOperator dropped the phase
 of negative momenta

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index eff7480..ee6cca1 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2534,13 +2534,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
-- 
2.43.0


From e62cc916d6630f95ee526152f2a25045b826c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 07/67] fix: TDVPGMRES ignored its momentum argument

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index ee6cca1..e4cd3b7 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2588,7 +2588,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
-- 
2.43.0


From df7d4564c154198950c099d808f3c09b73fc7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 08/67] fix: overlap() dropped the phase of the center matrices
 and failed for lists of tensors

Moving the center to the end of the chain leaves a 1x1 center matrix of modulus
one whose sign (real states) or phase (complex states) was not part of the result,
so overlap(mps1,mps2) had a random sign. For lists of tensors, which the docstring
allows, it raised AttributeError.
---
 lib/mpslib/mpsfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e4cd3b7..99422f3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -70,10 +70,13 @@ def overlap(mps1,mps2):
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
+    out=np.trace(L[:,:,0])
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        #the center matrices at the boundary are 1x1, but can carry a sign or phase
+        out=out*mps1._mat[0,0]*np.conj(mps2._mat[0,0])*mps1._Z*np.conj(mps2._Z)
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return out
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From 3a53e95d03469d9f6ba2ef3a629b2acd7bee6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 09/67] fix: MPS.measureMatrixElementList returned None and
 left out the norm factors

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..846d436 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -820,7 +820,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -845,7 +845,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
-- 
2.43.0


From 9a42749fc1f041f437ef81752493ffc15799197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 10/67] fix: matrixElementLocal and measureLocal dropped
 imaginary parts

The result array took its dtype from the first tensors (or from the dtype
attribute, which gates do not update) only, so complex operators or tensors
further to the right lost their imaginary part.
---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 99422f3..345cbeb 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -424,7 +424,7 @@ def measureLocal(mps,operators,lb,rb,ortho):
         dtype=np.result_type(*temp)
         
     elif isinstance(mps,MPSL.MPS):
-        temp=[mps.dtype]+[o.dtype for o in operators]+[lb,rb]        
+        temp=[mps.dtype]+[m.dtype for m in mps]+[o.dtype for o in operators]+[lb,rb]        
         dtype=np.result_type(*temp)
     N=len(mps)
     if len(mps)!=len(operators):
@@ -492,7 +492,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(*([m.dtype for m in mps1]+[m.dtype for m in mps2]+[o.dtype for o in operators]+[lb,rb]))
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From 29c842024ed13a5637d0e40a6d04e981946fc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 11/67] fix: MPS.measure took the local dimension of the wrong
 site

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 846d436..b224408 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -933,7 +933,7 @@ class MPS:
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
-- 
2.43.0


From 7b574f2110772f3bd261a429454e33f68cbb0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 12/67] fix: MPS.measure of an odd number of fermionic
 operators failed

The Jordan-Wigner string to the left of the first operator was not in MPO form
and stopped one site short.
---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index b224408..adeb8ba 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -927,8 +927,8 @@ class MPS:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
-- 
2.43.0


From ecbc36febdbba7badb8c86b980ba05961bf85757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 13/67] fix: MPS.measure cast complex operators to the dtype of
 the state

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index adeb8ba..c88df47 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -940,7 +940,7 @@ class MPS:
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
+            mpo=np.zeros((1,1,op.shape[0],op.shape[1]),dtype=np.result_type(self._dtype,op.dtype,*([] if P==None else [P[sites[s]].dtype])))
             if P==None or par==0:
                 mpo[0,0,:,:]=op
             elif P!=None and par==1:
-- 
2.43.0


From ab573314242adbd55f95683efeedd328430aa23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 14/67] fix: MPS.measure failed for non-square center matrices

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c88df47..a0f3950 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -957,8 +957,8 @@ class MPS:
 
         assert(self._position==sites[-1]+1)
 
-        R=np.zeros((self[sites[s-1]].shape[1],self[sites[s-1]].shape[1],1))
-        R[:,:,0]=np.eye(self[sites[s-1]].shape[1])
+        R=np.zeros((self._mat.shape[1],self._mat.shape[1],1))
+        R[:,:,0]=np.eye(self._mat.shape[1])
         Z=np.trace(self._mat.dot(herm(self._mat)))
         if not((np.abs(np.trace(self._mat.dot(herm(self._mat))))-1.0)<1E-10):
             warnings.warn('mps.py.measure(self,ops,sites): state is not normalized')
-- 
2.43.0


From 0efb0ab3a8bc9e8e60920127042556570ae78d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 15/67] fix: directsum dropped the imaginary part of its second
 argument

The dtype was taken from the first matrix only, so adding a complex MPS to a
real one lost the imaginary parts.
---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 345cbeb..3b99bc6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -166,7 +166,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1.dtype,m2.dtype)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
-- 
2.43.0


From b910ba57a27c5da80bbd015341c4dce5ce9cf7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 16/67] fix: addMPS dropped the imaginary part of the norm
 factors of real states

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3b99bc6..e1e2ca3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -182,7 +182,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     if len(mps1)!=len(mps2):
         raise ValueError("addMPS(mps1,mps2): mps1 and mps2 have different length")
     
-    dtype=int
+    dtype=np.result_type(int,Z1,Z2)
 
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
-- 
2.43.0


From cc9c9f12f7f95241ab0a0eedeec0eb866f7cd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 17/67] fix: addMPS returned two tensors for states of length
 one

---
 lib/mpslib/mpsfunctions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e1e2ca3..d74f532 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -188,7 +188,13 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
         dtype=np.result_type(dtype,mps1[n].dtype)
         dtype=np.result_type(dtype,mps2[n].dtype)
     
-    if obc==True:
+    if obc==True and len(mps1)==1:
+
+        if mps1[0].shape[2]!=mps2[0].shape[2]:
+            raise ValueError("in addMPS: mps1[0] and mps2[0] have different hilbert space dimensions")
+        mps=[mps1[0]*Z1+mps2[0]*Z2]
+
+    elif obc==True:
 
         mps=[]
         shape=(1,mps1[0].shape[1]+mps2[0].shape[1],mps1[0].shape[2])
-- 
2.43.0


From 632d2a04c2908a84aa8959b6ceeb237f16985616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 18/67] fix: MPS.__iadd__ kept the old center matrix and
 position

The center matrix is contained in tolist(), so it entered the sum twice, and for
a displaced center its shape did not match the new bonds.
---
 lib/mpslib/mps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a0f3950..3f92415 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -547,6 +547,11 @@ class MPS:
         leaves self unnormalized
         """
         self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
+        #the center matrix was absorbed into the tensors
+        self._mat=np.eye(self._tensors[-1].shape[1])
+        self._connector=np.eye(self._tensors[-1].shape[1])
+        self._position=self._N
+        self._dtype=np.result_type(self._dtype,*[t.dtype for t in self._tensors])
         self._Z=1.0 
         return self
     
-- 
2.43.0


From 4376e745d66c94633892edc6691ae3c2a0117079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 19/67] fix: -mps returned the state unchanged for an even
 number of sites

The sign was applied to every tensor, which multiplies the state by (-1)^N.
---
 lib/mpslib/mps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 3f92415..7472653 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -458,7 +458,12 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns an MPS with the opposite sign
+        """
+        return self*(-1)
+    
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From 09d1220b34510878af4f287d1533e36b15a1e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 20/67] fix: MPS.applyMPO used the undefined name mps

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 7472653..e185b7e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1265,10 +1265,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From b20424a03c6aa1c1e7b11a0f5923d5235bc8d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 21/67] fix: MPS.applyTwoSiteGate failed without Dmax or if all
 singular values are below thresh

---
 lib/mpslib/mps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e185b7e..68f6a4f 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1213,9 +1213,12 @@ class MPS:
         [Dl,d1,d2,Dr]=newState.shape
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
-        Strunc=S[S>thresh]
-        tw=sum(S[min(len(Strunc),Dmax)::]**2)
-        Strunc=S[0:min(len(Strunc),Dmax)]
+        #at least one singular value has to be kept
+        keep=max(1,np.count_nonzero(S>thresh))
+        if Dmax!=None:
+            keep=min(keep,Dmax)
+        tw=sum(S[keep::]**2)
+        Strunc=S[0:keep]
         Strunc/=np.linalg.norm(Strunc)
         U=U[:,0:len(Strunc)]
         V=V[0:len(Strunc),:]
-- 
2.43.0


From 11fd52b24a263ef2f209874575b8cf5c3536881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 22/67] fix: TFI_2 with open boundaries used the undefined
 attribute _Bz

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..21e968f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -109,7 +109,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -139,7 +139,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From 6bd63178a9ea29b9f5f0f91dd9853fd28a548372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 23/67] fix: XXZflipped used the first coupling for the xy
 terms of all sites

---
 lib/mpslib/Hamiltonians.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 21e968f..fc2588b 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -533,11 +533,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -582,11 +582,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From 3849cf492512ceb24189fb9aa7383c18f246a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 24/67] fix: SpinlessFermions with obc=False could not be built
 and had the opposite hopping sign

---
 lib/mpslib/Hamiltonians.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index fc2588b..eea4de1 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -604,7 +604,7 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    assert (len(interaction) == (len(chempot) - 1 if obc else len(chempot)))
 
     self._mpo = []
     self._interaction = interaction
@@ -653,13 +653,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From 482f551ef91d96328ee3b380f71204814b855485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 25/67] fix: HubbardChain with obc=False could not be built

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index eea4de1..0df9f5b 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -943,8 +943,8 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    assert (len(t_up) == (self._N - 1 if obc else self._N))
+    assert (len(t_down) == (self._N - 1 if obc else self._N))
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From 8413159f4c32986ee00898f649a69f3a8ac356be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 26/67] fix: MPO.fromMPO raised AttributeError and MPO had no
 dtype

---
 lib/mpslib/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 0df9f5b..e9cfeb7 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,11 +21,12 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(float, *[t.dtype for t in self._mpo])
 
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From 2bba14d7e02f2c481ce0ff573b8fe7b29d48638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 27/67] fix: MPO.twoSiteGate raised NameError for sites in
 descending order

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index e9cfeb7..768d6f7 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -48,7 +48,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
-- 
2.43.0


From a35d6039e95fbd83f6831e72b4ca15f601e46fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 28/67] fix: MPO.twoSiteGate failed for operators on two sites

---
 lib/mpslib/Hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 768d6f7..39446d0 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -72,6 +72,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From 70c7dd93e39d67bbc4d8fe8e9d8030011da18db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 29/67] fix: ncon appended to the caller's contraction order

---
 lib/ncon/ncon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ncon/ncon.py b/lib/ncon/ncon.py
index ac005b2..9fa04d8 100644
--- a/lib/ncon/ncon.py
+++ b/lib/ncon/ncon.py
@@ -40,6 +40,9 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        # order is extended below, the argument must not be modified
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 02adec8fbf9bd99b0ea82b9cc096fb7a3f409330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 30/67] fix: time of TEBD runs was only accumulated with
 verbose>=1

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..89f1a89 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1251,8 +1251,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
-- 
2.43.0


From 085c2570e4f14d71929389df4f2cde181a4162d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 31/67] fix: time of TDVP runs was only accumulated with
 verbose>=1

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 89f1a89..58171f1 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1375,8 +1375,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 80eeb218c11c30ef8a855fbc2d9b622398565a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 32/67] fix: doTEBD with numsteps=0 evolved the even bonds by
 half a step

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 58171f1..7daabbf 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1247,7 +1247,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
-        self.applyEven(dt/2.0,Dmax,tr_thresh)
+        if numsteps>0:
+            self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
-- 
2.43.0


From 99baf9ebea14a79c3b6e8beb4786ebe3938badc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 33/67] fix: moving the center after Container.update() or
 truncateMPS() raised IndexError

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7daabbf..28df514 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,7 +113,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
@@ -165,7 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
-- 
2.43.0


From 758b60961cce1c40c928955f4368747951efec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 34/67] fix: Lanczos built ncv+1 vectors, the time evolution
 left out the last one

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..d530722 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -97,7 +97,7 @@ class LanczosEngine:
                 Hxn-=(self._vecs[-1]*epsn[-1])
             xn=Hxn
             it=it+1
-            if it>self._ncv:
+            if it>=self._ncv:
                 break
 
         self._Heff=np.diag(epsn)+np.diag(kn[1:],1)+np.diag(np.conj(kn[1:]),-1)
-- 
2.43.0


From 58f3b7297ed6a147fa93aebe5021ea52dc77ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 35/67] fix: Lanczos overwrote the array returned by matvec

---
 lib/Lanczos/LanczosEngine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index d530722..034f2a0 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -91,10 +91,10 @@ class LanczosEngine:
                 first=False
                 etaold=eta[0:self._numeig]
             if it>0:
-                Hxn-=(self._vecs[-1]*epsn[-1])
-                Hxn-=(self._vecs[-2]*kn[-1])
+                Hxn=Hxn-(self._vecs[-1]*epsn[-1])
+                Hxn=Hxn-(self._vecs[-2]*kn[-1])
             else:
-                Hxn-=(self._vecs[-1]*epsn[-1])
+                Hxn=Hxn-(self._vecs[-1]*epsn[-1])
             xn=Hxn
             it=it+1
             if it>=self._ncv:
-- 
2.43.0


From 23e236835a689044ddcbc461428532e6b04d3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 36/67] fix: Lanczos failed for a complex operator and a real
 initial state

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 034f2a0..743d3ad 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(dtype,initialstate.dtype))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
-- 
2.43.0


From d97f4bc0b78693a8191d7201d6a304b32204ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 37/67] fix: Lanczos time evolution with a real step dropped
 the imaginary part of the state

---
 lib/Lanczos/LanczosEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 743d3ad..5264796 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -133,11 +133,11 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
+        self._dtype=np.result_type(type(dt),state.dtype)
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-        result=np.zeros(state.shape,dtype=self._dtype)
+        result=np.zeros(state.shape,dtype=np.result_type(self._dtype,*[v.dtype for v in self._vecs]))
         for n in range(min(self._ncv,self._Heff.shape[0])):
             result+=self._vecs[n]*U[n,0]
         return result
-- 
2.43.0


From 12e0011c82bacd01a584271580119c471cd9d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 38/67] fix: binarybasis lost low bits for more than 53 sites

---
 lib/utils/binaryoperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/binaryoperations.py b/lib/utils/binaryoperations.py
index 923a77c..adba6bc 100644
--- a/lib/utils/binaryoperations.py
+++ b/lib/utils/binaryoperations.py
@@ -37,7 +37,7 @@ def binarybasis(N,Nup):
         for p in range(Nup-1,N):
             rest=binarybasis(p,Nup-1)
             for n in rest:
-                basis.append(np.uint64(n+2**p))
+                basis.append(setBit(n,p))
         return basis
 
 
-- 
2.43.0


From 0f9fe2d97ebe29cc9b9cb79d84d1e922aa21ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 39/67] fix: MPS.fromList failed with and without a center
 matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 68f6a4f..bb4a220 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From c89a7c3d83a035f5a58c8d71cfc1175eefed0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 40/67] fix: MPS.copy did not copy the boundary condition

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index bb4a220..da59a2a 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From aae8736c40d1c3f8a7f88681c8479c483b5ea02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 41/67] fix: MPS.load set the maximum bond dimension to the
 number of sites

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index da59a2a..0555aec 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1305,7 +1305,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From 336d85f28c350f32034f2e2f21d988731cd650db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 42/67] fix: a TEBD checkpoint at the last step left the
 superseded one behind (keep_cp=False)

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 28df514..fc172d8 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1275,6 +1275,8 @@ class TimeEvolutionEngine(Container):
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
+                    if not keep_cp and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
             #if step is not a cp step:
-- 
2.43.0


From 5f43a52d583ed559cf75ba0446e597f8f37c30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 43/67] fix: TDVP with the solve_ivp solvers ran backward in
 time, ignored real time steps and failed for real states

---
 lib/mpslib/engines.py      |  8 ++++----
 lib/mpslib/mpsfunctions.py | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index fc172d8..ae25e89 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1326,7 +1326,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1339,7 +1339,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1355,7 +1355,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1366,7 +1366,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d74f532..6c78ac7 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1350,28 +1350,27 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    #evolves with exp(tau*H), like evolveTensorLan and evolveTensorSexpmv
+    dtype=np.result_type(L,mpo,R,mps,tau,float)
+    out=solve_ivp(lambda t,y:tau*mv(y),t_span=(0.0,1.0),y0=np.reshape(mps,(chi1*chi2*d)).astype(dtype),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    #evolves with exp(tau*H), like evolveMatrixLan and evolveMatrixSexpmv
+    dtype=np.result_type(L,R,mat,tau,float)
+    out=solve_ivp(lambda t,y:tau*mv(y),t_span=(0.0,1.0),y0=np.reshape(mat,(chi1*chi2)).astype(dtype),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 2aefca4327f96d74e4b258415be1d520c9457df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 44/67] fix: TDVP failed for a rectangular bond matrix
 (redundant bond dimension)

---
 lib/mpslib/mpsfunctions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6c78ac7..8e7f0f3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1021,10 +1021,9 @@ def HAproductZeroSiteMat(L,mpo,mps,R,position,mat):
 
 #does the matrix vector product on the bond; vec is a vectorized bond matrix
 def HAproductBond(L,R,vec):
-    chi=np.shape(L)[0]
-    mat=np.reshape(vec,(chi,chi))
+    mat=np.reshape(vec,(np.shape(L)[0],np.shape(R)[0]))
     temp=np.tensordot(L,mat,([0],[0]))
-    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),chi*chi)
+    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),np.shape(L)[1]*np.shape(R)[1])
 
 
 def contractionE(Lexp,mps,Rexp):
-- 
2.43.0


From 0d058fc952674c3d36a1e868c85740a5c0044ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 45/67] fix: gexpmv failed for matrices of dimension one and
 two

---
 lib/mpslib/sexpmv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..40c06f2 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -35,6 +35,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
+      if n <= 2: #too small for a Krylov subspace of dimension m<n with an error estimate: use the full matrix
+            full = sp.column_stack([matvec(e) for e in sp.eye(n, dtype=A.dtype)])
+            return la.expm(t*full).dot(v), True, 1, False, n
+
       if m >= n or m <= 0:
             raise ValueError("m is invalid")
 
-- 
2.43.0


From cf5934eb94e081bee7808780b0feb0c70b02ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 46/67] fix: single-site DMRG left the state unnormalised and
 outside its canonical form

---
 lib/mpslib/engines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index ae25e89..1b09364 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -289,6 +289,7 @@ class DMRGengine(Container):
                     print()
                     print ('reached maximum iteration number ',Nmax)
                 break
+        self.position(0) #the last optimized tensor is not isometric
         self._mps.resetZ()
         return e
 
-- 
2.43.0


From accc15a695b6f647accb06110bc472333a8a226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 47/67] fix: getBoundaryHams returned four instead of six
 values for a center position on the left

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 8e7f0f3..58d8cab 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1854,7 +1854,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From 89eb551e7c505947c468a98fb5a2b9a50608f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 48/67] fix: IDMRG put the center matrix at the wrong bond for
 odd unit cells

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 1b09364..625453b 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -472,7 +472,7 @@ class IDMRGengine(DMRGengine):
         for n in range(self._mps._N):
             self._mps._tensors[n]=mps[n]
             
-        self._mps._position=int(self._mps._N/2)
+        self._mps._position=self._mps._N-int(self._mps._N/2)
         self._mps._mat=lamR.dot(self._mps._connector).dot(lamL)
         self._mps._connector=connector
         self._mps.__position__(0)
-- 
2.43.0


From dca2d0405ab1e0868f891603920fe78c0ca7d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 49/67] fix: infinite environments counted the local term at
 the boundary of the unitcell twice

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 58d8cab..be3cddf 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1924,6 +1924,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        mpo[0,0,:,:]=0.0 #the local term of this site is added below with the unitcell
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
@@ -1938,6 +1939,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        mpo[-1,0,:,:]=0.0 #the local term of this site is added below with the unitcell
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
-- 
2.43.0


From 44b59df4b698ea5538b457f912d4dac5b3e66c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 50/67] fix: Lanczos iterated beyond the dimension of the
 space, the eigenvector could be lost in rounding errors

---
 lib/Lanczos/LanczosEngine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 5264796..471c0e8 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -97,6 +97,9 @@ class LanczosEngine:
                 Hxn=Hxn-(self._vecs[-1]*epsn[-1])
             xn=Hxn
             it=it+1
+            if it>=Dim: #the krylov vectors span the whole space
+                converged=True
+                break
             if it>=self._ncv:
                 break
 
-- 
2.43.0


From fd25a517e2c72f8e3d130931ebc98f683ed81dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 51/67] fix: Lanczos time evolution failed for a complex
 operator and a single real Krylov vector

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 471c0e8..8c08164 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -140,7 +140,7 @@ class LanczosTimeEvolution(LanczosEngine):
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-        result=np.zeros(state.shape,dtype=np.result_type(self._dtype,*[v.dtype for v in self._vecs]))
+        result=np.zeros(state.shape,dtype=np.result_type(self._dtype,U.dtype,*[v.dtype for v in self._vecs]))
         for n in range(min(self._ncv,self._Heff.shape[0])):
             result+=self._vecs[n]*U[n,0]
         return result
-- 
2.43.0


From 571b45aa53ec43d1803f0e220d4387f9b897daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 52/67] fix: computeUCsteadyStateHamiltonianGMRES computed the
 energy per unitcell with transposed environments

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index be3cddf..a7d68a6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1930,7 +1930,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1944,7 +1944,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From c545f8f5272e02ca1a674dc2dd06c5c755f01128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 53/67] fix: getBoundaryHams without regauging ignored the
 phase matrix closing the unitcell

---
 lib/mpslib/mpsfunctions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a7d68a6..b8bf0ef 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1801,6 +1801,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
     mps: an infinite system mps
     mpo: an infinite system mpo
     if regauge==True, the routine regauges mps in place into symmetric gauge
+    if regauge==False, mps has to be in symmetric gauge already
     ToDo: allow passing precision parameters to __regauge__
     """
     if regauge:
@@ -1813,8 +1814,8 @@ def getBoundaryHams(mps,mpo,regauge=False):
             
     if mps.pos==0:
         D=np.shape(mps[0])[0]
-        if regauge:
-            phasematrix=mps._connector.dot(mps._mat)
+        phasematrix=mps._connector.dot(mps._mat)
+        if regauge or np.allclose(phasematrix.dot(herm(phasematrix)),np.eye(phasematrix.shape[0]),atol=1E-6): #close the unitcell
             mps[0]=ncon.ncon([phasematrix,mps[0]],[[-1,1],[1,-2,-3]])
             mps._mat=mps._mat.dot(herm(phasematrix))
         temp=mps.tensors            
@@ -1832,8 +1833,8 @@ def getBoundaryHams(mps,mpo,regauge=False):
         f0r,hr=computeUCsteadyStateHamiltonianGMRES(temp,mpo,f0r,ldens,rdens,direction=-1,thresh=1E-10,imax=1000)
         
         mps.__position__(mps._N)
-        if regauge:
-            phasematrix=mps._mat.dot(mps._connector)
+        phasematrix=mps._mat.dot(mps._connector)
+        if regauge or np.allclose(phasematrix.dot(herm(phasematrix)),np.eye(phasematrix.shape[0]),atol=1E-6): #close the unitcell
             mps[-1]=ncon.ncon([mps[-1],phasematrix],[[-1,1,-3],[1,-2]])
             mps._mat=herm(phasematrix).dot(mps._mat)
         temp=mps.tensors
@@ -1858,9 +1859,8 @@ def getBoundaryHams(mps,mpo,regauge=False):
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-        if regauge:
-            
-            phasematrix=mps._mat.dot(mps._connector)
+        phasematrix=mps._mat.dot(mps._connector)
+        if regauge or np.allclose(phasematrix.dot(herm(phasematrix)),np.eye(phasematrix.shape[0]),atol=1E-6): #close the unitcell
             mps[-1]=ncon.ncon([mps[-1],phasematrix],[[-1,1,-3],[1,-2]])
             mps._mat=herm(phasematrix).dot(mps._mat)
 
@@ -1880,8 +1880,8 @@ def getBoundaryHams(mps,mpo,regauge=False):
         f0l,hl=computeUCsteadyStateHamiltonianGMRES(temp,mpo,f0l,ldens,rdens,direction=1,thresh=1E-10,imax=1000)
         lb=np.copy(f0l)
         mps.__position__(0)
-        if regauge:
-            phasematrix=mps._connector.dot(mps._mat)
+        phasematrix=mps._connector.dot(mps._mat)
+        if regauge or np.allclose(phasematrix.dot(herm(phasematrix)),np.eye(phasematrix.shape[0]),atol=1E-6): #close the unitcell
             mps[0]=ncon.ncon([phasematrix,mps[0]],[[-1,1],[1,-2,-3]])
             mps._mat=mps._mat.dot(herm(phasematrix))
             
-- 
2.43.0


From ab5aa07a7b1eee363219233b03e655e5cf768aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 54/67] fix: regauge(gauge='left') rescaled the caller's tensor
 in place

---
 lib/mpslib/mpsfunctions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b8bf0ef..c7bb063 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2373,8 +2373,7 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         #find left eigenvalue
         [eta,v,numeig]=TMeigs(tensor,direction=1,numeig=numeig,init=initial,nmax=nmaxit,tolerance=tol,ncv=ncv)
         #rescale so that eta=1
-        #tensor=tensor/np.sqrt(np.real(eta))
-        tensor/=np.sqrt(np.real(eta))        
+        tensor=tensor/np.sqrt(np.real(eta))
         if np.abs(np.imag(eta))/np.abs(np.real(eta))>thresh:
             print ('in regauge: warning: found eigenvalue eta with large imaginary part: {0}'.format(eta))
         l=np.reshape(v,(chi,chi))
-- 
2.43.0


From 7a935cd8c4f44b8075f6373abcd0d628d543fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 55/67] fix: canonizeMPS ignored the center matrix of an obc
 MPS

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c7bb063..37b9251 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2278,7 +2278,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            Gamma=mps.tolist() #includes the center matrix
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From f7539a938d7baeb64bc7332c6047eabca2d798c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 56/67] fix: MPS.truncate ignored schmidt_thresh if D was
 larger than the dimension limit of the mps

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0555aec..9f38bdf 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -999,7 +999,7 @@ class MPS:
         returned_gauge: 'left','right' or 'symmetric': the desired gauge after truncation
         """
         
-        if D!=None and D>self._D:
+        if D!=None and D>self._D and schmidt_thresh<=1E-15:
             print('MPS.__truncate__(): D>self._D, no truncation neccessary')
             return
         else:
-- 
2.43.0


From dd6227af16bb977e18acb7fba7a1c2e71ab4844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 57/67] fix: truncateMPS dropped the phase of the state

---
 lib/mpslib/mpsfunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 37b9251..f80779b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2233,7 +2233,8 @@ def truncateMPS(mps,D):
     D (int): the desired bond dimension
     """
     
-    orthonormalizeQR(mps,-1,0,len(mps)-1)
+    r=orthonormalizeQR(mps,-1,0,len(mps)-1)
+    mps[0]=np.tensordot(r/np.linalg.norm(r),mps[0],([1],[0]))
     N=len(mps)
     lams=[]                        
     for site in range(N):
@@ -2244,7 +2245,7 @@ def truncateMPS(mps,D):
         if site<(N-1):
             mps[site+1]=np.tensordot(mat,mps[site+1],([1],[0]))
         if site==(N-1):
-            mps[site]=np.transpose(np.tensordot(mps[site],np.diag(lam),([1],[0])),(0,2,1))
+            mps[site]=np.transpose(np.tensordot(mps[site],mat,([1],[0])),(0,2,1))
     return lams
 
 
-- 
2.43.0


From af5b324cca23dce19767f2d81d2a5565c72eaeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 58/67] fix: canonizeMPS lost the unitary closing the unitcell
 of an infinite MPS

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index f80779b..85e3cdc 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2339,6 +2339,9 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             Lam[n]=S
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+            else:
+                #U commutes with the schmidt-values and closes the unitcell
+                Gamma[n]=np.tensordot(U,Gamma[n],([1],[0]))
         return Gamma,Lam
 
     else:
-- 
2.43.0


From 8de4e1af8b013f1250b0f68300c4a1a8015419a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 59/67] fix: MPS.truncate did not truncate if the bond
 dimensions had grown beyond the dimension limit of the mps

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 9f38bdf..58df993 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -999,7 +999,7 @@ class MPS:
         returned_gauge: 'left','right' or 'symmetric': the desired gauge after truncation
         """
         
-        if D!=None and D>self._D and schmidt_thresh<=1E-15:
+        if D!=None and D>self._D and D>=max([max(t.shape[0:2]) for t in self._tensors]) and schmidt_thresh<=1E-15 and returned_gauge==None:
             print('MPS.__truncate__(): D>self._D, no truncation neccessary')
             return
         else:
-- 
2.43.0


From be8d6419f1476de3031a56479fe593ae271eaab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 60/67] fix: gexpmv returned a partially evolved vector for
 small problems

---
 lib/mpslib/sexpmv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 40c06f2..1dc2278 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -35,7 +35,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
-      if n <= 2: #too small for a Krylov subspace of dimension m<n with an error estimate: use the full matrix
+      if n <= 20: #for small problems the order m<n of the Krylov scheme is too low to reach the end within mxstep steps: use the full matrix
             full = sp.column_stack([matvec(e) for e in sp.eye(n, dtype=A.dtype)])
             return la.expm(t*full).dot(v), True, 1, False, n
 
-- 
2.43.0


From 81fcffe1ebd9ef2ad80305b655daec78700c62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 61/67] fix: MPS.__tensor__(clear=True) left a centre matrix of
 the wrong size if the centre matrix is rectangular

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 58df993..7c4295d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1042,14 +1042,14 @@ class MPS:
         if (site==self._position):
             out=np.tensordot(self._mat,self._tensors[site],([1],[0]))
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[0])
+                self._mat=np.eye(np.shape(out)[0])
                 self._mat/=np.linalg.norm(self._mat)                                
             return out
 
         if (site==(self._position-1)):
             out=np.transpose(np.tensordot(self._tensors[site],self._mat,([1],[0])),(0,2,1))            
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[1])
+                self._mat=np.eye(np.shape(out)[1])
                 self._mat/=np.linalg.norm(self._mat)                
             return out
         
-- 
2.43.0


From 0d60488cf848ac89baff8df6ff6d57f36aebe018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 62/67] fix: right environment of an infinite system with
 different operator dimensions on the first and last site of the cell

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 85e3cdc..606d9cb 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1937,6 +1937,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         return np.copy(L),h
 
     if direction<0:
+        [B1,B2,d1,d2]=np.shape(mpopbc[0])
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
         mpo[-1,0,:,:]=0.0 #the local term of this site is added below with the unitcell
-- 
2.43.0


From f9a62d1911d2492abd6176689b801adc438c95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 63/67] fix: UnitcellTMeigs takes the element type of all
 tensors of a list, not of the first one only

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 606d9cb..a1cd276 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1675,7 +1675,7 @@ def UnitcellTMeigs(mps,direction,numeig,init=None,nmax=800,tolerance=1e-12,ncv=1
     if isinstance(mps,MPSL.MPS):
         dtype=mps.dtype
     elif isinstance(mps,list):
-        dtype=mps[0].dtype
+        dtype=np.result_type(*[tensor.dtype for tensor in mps])
         
     [D1l,D2l,dl]=np.shape(mps[0])
     [D1r,D2r,dr]=np.shape(mps[-1])
-- 
2.43.0


From d73dd8810d9e48c3111c9128904dac1e1933c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 64/67] fix: TMeigs and UnitcellTMeigs of cells with bond
 dimension one

---
 lib/mpslib/mpsfunctions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a1cd276..1d3f4d0 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1608,6 +1608,9 @@ def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,w
     if chi1!=chi2:
         raise ValueError(" in TMeigs: ancillary dimensions of the MPS tensor have to be the same on either side")
     mv=fct.partial(TransferOperator,*[direction,tensor])
+    if chi1==1:#arpack can't handle one-dimensional problems
+        vec=np.ones(1,dtype=dtype)
+        return mv(vec)[0],vec,numeig
     LOP=LinearOperator((chi1*chi1,chi2*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
 
     try:
@@ -1683,6 +1686,9 @@ def UnitcellTMeigs(mps,direction,numeig,init=None,nmax=800,tolerance=1e-12,ncv=1
         raise ValueError(" in UnitcellTMeigs: ancillary dimensions of the MPS tensor have to be the same on left and right side")
     
     mv=fct.partial(UnitcellTransferOperator,*[direction,mps])
+    if D1l==1:#arpack can't handle one-dimensional problems
+        vec=np.ones(1,dtype=dtype)
+        return mv(vec)[0],vec,numeig
     LOP=LinearOperator((D1l*D1l,D2r*D2r),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
     eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
     m=np.argmax(np.real(eta))
-- 
2.43.0


From 0686cae3202a9c3d9e2403ac1f59182913d6428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 65/67] fix: regaugeIMPS truncated all Schmidt values if the
 threshold exceeds the largest one (IndexError for an infinite MPS)

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1d3f4d0..2c3421e 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2204,7 +2204,7 @@ def regaugeIMPS(mps,gauge,ldens=None,rdens=None,truncate=1E-16,D=None,nmaxit=100
 
         if truncate>1E-15:
             lam=lam/np.linalg.norm(lam)
-            lam=lam[lam>truncate]
+            lam=lam[0:max(1,np.count_nonzero(lam>truncate))]
             if D!=None:
                 lam=lam[0:min(len(lam),D)]
             U=U[:,0:len(lam)]
-- 
2.43.0


From cbd929dfa6e03a0b21cfbe05e03990fe1f1a4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 66/67] fix: regauge with a truncation threshold above the
 largest Schmidt value returned an empty tensor

---
 lib/mpslib/mpsfunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 2c3421e..ae90f4b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2508,8 +2508,9 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         lam=lam/Z
         rest=[0.0]
         if trunc>1E-15:
-            rest=lam[lam<=trunc]
-            lam=lam[lam>trunc]
+            keep=max(1,np.count_nonzero(lam>trunc))
+            rest=lam[keep::]
+            lam=lam[0:keep]
             rest=np.append(lam[min(len(lam),Dmax)::],rest)
             lam=lam[0:min(len(lam),Dmax)]
             U=U[:,0:len(lam)]
-- 
2.43.0


From ab633b77ed25e8d14964b7ae2487ee49d56147de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 67/67] fix: TMeigs asked ARPACK for more eigenvectors than a
 transfer operator of bond dimension two has

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index ae90f4b..7734fcd 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1614,6 +1614,7 @@ def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,w
     LOP=LinearOperator((chi1*chi1,chi2*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
 
     try:
+        numeig=min(numeig,chi1*chi1-2) #the largest number of eigenvectors ARPACK can compute
         eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
         m=np.argmax(np.real(eta))
         while np.abs(np.imag(eta[m]))/np.abs(np.real(eta[m]))>1E-5:
-- 
2.43.0

