From 973c6f1c3f3d6bebf9745adce800388817f34244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 01/14] fix: hard case of the trust-region solver builds its
 quadratic from scalars

numpy >= 1.24 refuses the ragged coefficient list, so every hard case raised ValueError.
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..ef0f2a0 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),nscri ** 2 - Delta ** 2])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 4a99515950432537e0069ec69b51b8c33f1ae1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 02/14] fix: stop with the failure status when an evaluation
 fails while improving the set

The failed value was looked up in fX and an IndexError escaped to the caller.
---
 sqpdfo/sqpdfo_main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..b14325c 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -511,6 +511,13 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
                                    
+                # the evaluation failed: nothing was appended to fX, ceX
+
+                if info.flag:
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From fcfa0bd9a30d139ba74310dcd0fff55cddc9cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 03/14] fix: constraint gradients are defined when the first
 step is rejected

UnboundLocalError for gce with constraints and final_degree linear.
---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index b14325c..a88c8a3 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=info.ai
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=info.ae
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From cfa3d887f96d106bccb5bb2cfbafd8b9e1594c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 04/14] fix: a run without inequalities forgets the slack
 variables of an earlier run

The slack globals survived, so a later call with no inequality constraints raised or
optimised with stale slacks.
---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..73b143c 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -146,6 +146,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         glob.set_slacks(np.zeros((mi, 1)))
         lb = np.concatenate((lb, np.zeros((mi, 1))))
         ub = np.concatenate((ub, 1e20 * np.ones((mi, 1))))
+    else:
+        # forget the slack variables of an earlier run
+        glob.set_nbr_slacks(0)
+        glob.set_slacks(None)
 
     #  Set some constants
 
-- 
2.43.0


From 4f622a417547f12860876b2cf872110b31b045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 05/14] fix: return the objective and constraint values of the
 returned point

Only the printed copy of info was corrected; info.f could be that of a rejected or
failed trial point.
---
 sqpdfo/sqpdfo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 73b143c..9c71588 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -343,10 +343,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
-    info_best=copy(info)
-    info_best.f=fx
     x=X[:,i_xbest]
-    sqpdfo_finish_(nb,mi,me,info_best,options,values)
+    info.f=fx
+    if me > 0:
+        info.ce=copy(ceX[:,[i_xbest]])
+    sqpdfo_finish_(nb,mi,me,info,options,values)
 
     #---------------------------------------
     # Recover the results
-- 
2.43.0


From 120f29a653c5230e2263958a390bbf2f07471e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 06/14] fix: the second interpolation point can become the best
 point

Left-over 1-based index: position 1 was skipped instead of position 0.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..18ffc85 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 01e8c88eb476b6868c29e7aa19729c62f6d734cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 07/14] fix: compare every component of a point with its own
 bound

Y[:,i] broadcast against the column of bounds compared all pairs of components.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 18ffc85..1eb43af 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -89,7 +89,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     ind_insideBounds=array([])
     
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,[i]] < xl[indfree] , Y[:,[i]] > xu[indfree]),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
-- 
2.43.0


From 62a5720cbee147569c04f331b05664afec70d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 08/14] fix: use the penalty parameter itself to rank the
 interpolation points

int() cut it off, so the ranking disagreed with the merit function.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 1eb43af..0809568 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -107,7 +107,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=fY + float(sigma) * norm_ceY
     
     #  Find the smallest function value among them
 
-- 
2.43.0


From 79e63dc0b52d8aa20493fd2b030a8ddbbc8df75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 09/14] fix: hess_approx bfgs works without bfgs_restart and
 with a restart

The option had no default and mod_ is not defined.
---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 sqpdfo/sqpdfo_options.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..df9714e 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value (no restart)
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From afb8391ffdf0ddba72a3f4afb95ebf54d96cc649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 10/14] fix: unconstrained problems may give infinite bounds

Without finite bounds there are no multipliers and the empty update raised ValueError.
---
 sqpdfo/sqpdfo_optimality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_optimality.py b/sqpdfo/sqpdfo_optimality.py
index 5781f5a..d5ae6d1 100644
--- a/sqpdfo/sqpdfo_optimality.py
+++ b/sqpdfo/sqpdfo_optimality.py
@@ -38,7 +38,8 @@ def sqpdfo_optimality_(x=None,lm=None,lb=None,ub=None,info_=None,options=None,*a
             info.glag[i],lm[i]))
             
     I=find_(bounds[0:n])
-    info.glag[I]=info.glag[I] + lm[I]
+    if not isempty_(I):
+        info.glag[I]=info.glag[I] + lm[I]
 
     # contribution of the equality constraints
     
-- 
2.43.0


From dcb0eff505744390bb345afb73fa00f46e33b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 11/14] fix: measure the decrease from the current best point

After a rejected step f0, ce0 and merit0 were kept although an improvement step or a
swap had moved the best point, so a worse point could be accepted and reported.
---
 sqpdfo/sqpdfo_main.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index a88c8a3..f93481d 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -546,6 +546,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            #  The memorized values of the last iterate are out of date.
+
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
@@ -1269,6 +1274,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                     disp_(' swapped point to position 1')
                                     
                                 itype='repFs'
+
+                                # the iterate has changed
+
+                                radius_has_been_rejected=copy(False)
                                 
                                 #  Update the trust-region radius.
 
@@ -1392,6 +1401,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                         disp_(' swapped point to position 1')
                                         
                                     itype='repCs'
+
+                                    # the iterate has changed
+
+                                    radius_has_been_rejected=copy(False)
                                     
                                     #  Update the trust-region radius.
 
@@ -1476,7 +1489,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=copy(fx)
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From 0ef80f259cd1667a2e72b390ed2953e6667dfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 12/14] fix: the hard case accepts a radius given as a
 one-element array

That is how the radius arrives from the Lagrange-polynomial maximisation.
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index ef0f2a0..0e3b7f8 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),numpy.asarray(nscri ** 2 - Delta ** 2).item()])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 72c22bb983950d813ee205d44a728e5db63f3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 13/14] fix: blls does not claim success at a vertex that is
 not optimal

---
 sqpdfo/blls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..86a4363 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -199,7 +199,8 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
+            # no free variable left at the Cauchy point does not imply optimality
+            opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
-- 
2.43.0


From ee4dc4d684b8b130c4763cf42acaa4442b9643e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 14/14] fix: constraints that are zero at every evaluated point
 no longer crash the step update

---
 sqpdfo/sqpdfo_main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index f93481d..f0f1ebe 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -803,6 +803,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             if ceX.any():
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+            if me > 0:
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
-- 
2.43.0

