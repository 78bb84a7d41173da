From 00d2b98c6879e00c9fe6e816f446edd03edd2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 01/23] fix: reset the slack variables when a run has no
 inequality constraints

A run with inequalities followed, in the same process, by a run without
any kept the slack count and values of the first run.
---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..4cf8c67 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -146,6 +146,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         glob.set_slacks(np.zeros((mi, 1)))
         lb = np.concatenate((lb, np.zeros((mi, 1))))
         ub = np.concatenate((ub, 1e20 * np.ones((mi, 1))))
+    else:
+        # no inequalities: drop slack variables left over from an earlier run
+        glob.set_nbr_slacks(0)
+        glob.set_slacks(None)
 
     #  Set some constants
 
-- 
2.43.0


From 2980cdb93d3c7194dd69e0f5d539d9f038b39b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 02/23] fix: report a failed initial design as an evaluation
 error

When no radius gives usable function values the preliminaries returned
with flag 0 (solution found), and the solver went on with unset data.
For x0 = 0 the shrinking loop could not end at all.
---
 sqpdfo/sqpdfo_prelim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..3e7b968 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -399,9 +399,11 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
 
             #  Terminate with an error message if Delta0 becomes negligible wrt x0.
 
-            if (Delta0 < stallfact * norm_(x0)):
-                disp_('Error: cannot find enough finite objective function values',\
-                ' in the neighbourhood of the starting point! Terminating.')
+            if (Delta0 < stallfact * max_(norm_(x0), 1.0)):
+                if options.verbose:
+                    disp_('Error: cannot find enough finite objective function values',\
+                    ' in the neighbourhood of the starting point! Terminating.')
+                info.flag=values.fail_on_simul
 
                 #  including fixed variables at return
 
-- 
2.43.0


From 73776b5cdc603fc2a8ec553199ee12f71b79174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 03/23] fix: make the BFGS restart usable

options.bfgs_restart had no default (hess_approx='bfgs' alone raised an
AttributeError) and the restart test called an undefined function.
---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 sqpdfo/sqpdfo_options.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..9e0f6bc 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and np.mod(info.nsimul[1],options.bfgs_restart) == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..64cdfcc 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From 53f9928e7703716d3aee46b74d6011ff1f7a8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 04/23] fix: define the constraint gradients before the first
 model update

With final_degree='linear' and constraints, an unsuccessful first
iteration used gce before any assignment.
---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..2cdbb8c 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -188,13 +188,13 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         ciY=copy(ciX[:,ind_Y])
     else:
         ciY=array([])
-        gci=array([])
+    gci=info.ai
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
     else:
         ceY=array([])
-        gce=array([])
+    gce=info.ae
         
     if options.final_degree == values.quadratic:
         pfinal = pquad
-- 
2.43.0


From 509af014b775550f99042d89c41053951420455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 05/23] fix: keep diagnostic printing from changing the
 convergence test

At verbosity 4 and above the poisedness computed for printing replaced
the values that decide convergence after a set improvement.
---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 2cdbb8c..e1cbac3 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -478,11 +478,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                poised_print,_=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poised_print))
                 
             poised_model=1
 
-- 
2.43.0


From 030801d31df7a11a48970bf64c07d9db222773fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 06/23] fix: let the hard case of the trust-region subproblem
 be solved

A 1x1 matrix among scalars made numpy reject the polynomial, so the
hard case raised a ValueError out of the optimizer.
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..ef0f2a0 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),nscri ** 2 - Delta ** 2])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 7183b47ad4d9245f8c98cfb7eba87a4577c86cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 07/23] fix: let the best point be moved to from the second
 position of the set

The guard that skips the exchange when the current point is already the
best still used a one-based index.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..18ffc85 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 46a0f44c9d7f2fdece73373b6a83c6ad565a2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 08/23] fix: compare interpolation points with the actual
 penalty parameter

The penalty was truncated to an integer, so points were ranked by a
merit function different from the one the iterates are judged by.
---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 18ffc85..08de671 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -107,7 +107,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=fY + np.asarray(sigma).item() * norm_ceY
     
     #  Find the smallest function value among them
 
-- 
2.43.0


From 23bacd71d763a80eef5d5f05a0d1a5db98910b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 09/23] fix: accept a radius held in a 1x1 array in the
 trust-region hard case

The radius is a 1x1 array once it has been shrunk by interpolation; the
hard case then still raised a ValueError.
---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index ef0f2a0..0e3b7f8 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri).item(),numpy.asarray(nscri ** 2 - Delta ** 2).item()])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 48f9c5315e6ea7b24354b52ad3b721e0b1d0355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 10/23] fix: stop when an evaluation fails while the
 interpolation set is improved

The failure status was ignored there: an IndexError escaped, or the
value of an older point was taken for that of the failed one.
---
 sqpdfo/sqpdfo_main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index e1cbac3..274caba 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -511,6 +511,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
                                    
+                if info.flag:
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From 59c9500427ed9464b47833c50493d0e5981d9a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 11/23] fix: report the objective value of the iterate, not of
 a discarded trial point

After a step dropped for a bad predicted reduction info.f kept the
trial value, and after a late exchange (repFs, repCs) it fell back to
the value of the previous iterate.
---
 sqpdfo/sqpdfo_main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 274caba..4c266e8 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1081,6 +1081,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             if pred == - 1.0:
                 pos=0
                 rho=1
+                info.f=fx
                 
             if (rho < eta1) or (pos == -1):
             
@@ -1472,7 +1473,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=fx
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From bfcf8bdabe2f68d3b771f1a5f45e7b8c4ac079d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 12/23] fix: return the objective and constraint values of the
 returned point

The values of the last evaluated trial point (NaN or Inf after a failed
evaluation) were returned next to the best point.
---
 sqpdfo/sqpdfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 4cf8c67..5802c1d 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -345,6 +345,8 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         x=x / scalefacX
     info_best=copy(info)
     info_best.f=fx
+    if not isempty_(ceX):
+        info_best.ce=ceX[:,[i_xbest]]
     x=X[:,i_xbest]
     sqpdfo_finish_(nb,mi,me,info_best,options,values)
 
@@ -378,4 +380,4 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
                 fprintf_(options.fout,'.....\n')
             else:
                 fprintf_(options.fout,'\n')
-    return x,lm,info
+    return x,lm,info_best
-- 
2.43.0


From c8ba6ccd881479e0e06239f0ab77fe9e23eaea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 13/23] fix: refresh the reference merit value whenever the
 iterate moves

After a rejected step the values of f, ce and the merit function at the
iterate were kept although a set improvement or a late exchange had
moved the iterate, so the next step was judged against another point.
---
 sqpdfo/sqpdfo_main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4c266e8..83517f6 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -542,6 +542,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            # f, ce and merit of the previous iterate are outdated after a move
+
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
@@ -1256,6 +1261,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                         glob.set_slacks(slplus)
                                     
                                 i_xbest=copy(m)
+                                radius_has_been_rejected=copy(False)
                                 
                                 if (not shift_Y):
                                     x=Y[:,[0]]
@@ -1379,6 +1385,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                             glob.set_slacks(slplus)
                                         
                                     i_xbest=copy(m)
+                                    radius_has_been_rejected=copy(False)
                                     
                                     if (not shift_Y):
                                         x=copy(Y[:,[0]])
-- 
2.43.0


From 236a7f5fb15488abe06723891be2619d72752ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 14/23] fix: print nothing at verbosity 0

The banner, the bound messages and three error messages were printed
whatever the verbosity.
---
 sqpdfo/sqpdfo_computeHessian.py |  3 ++-
 sqpdfo/sqpdfo_main.py           | 10 ++++++----
 sqpdfo/sqpdfo_prelim.py         | 30 +++++++++++++++++-------------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 9e0f6bc..56c7502 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -71,7 +71,8 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
                     M,pc,info,values=\
                     sqpdfo_bfgs_update_(M,y,s,first,info,options,values,nargout=4)
                     if info.flag == values.fail_unexpected:
-                        disp_('sqpdfo_computeHessian: fail_unexpected ')
+                        if options.verbose:
+                            disp_('sqpdfo_computeHessian: fail_unexpected ')
                         return M,pc,info
 
         elif options.hess_approx == values.model:
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 83517f6..837f891 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -747,8 +747,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             sigma=max_(sigmab,1.5 * sigma)
             
             if sigma > 1e+299:
-                fprintf_(options.fout,'\n### sqpdfo_main: Penalty parameter (sigma): %15.8e '\
-                     'is too big\n\n'%(sigma))
+                if options.verbose:
+                    fprintf_(options.fout,'\n### sqpdfo_main: Penalty parameter (sigma): %15.8e '\
+                         'is too big\n\n'%(sigma))
                      
                 info.flag=values.fail_unexpected
                 
@@ -864,8 +865,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 merit=fxplus + sigma * norm_(ceplus)
                 
             if np.isinf(merit):
-                fprintf_(options.fout,'  Merit function: %15.8e -> %15.8e\n'\
-                     %(merit0,merit))
+                if options.verbose:
+                    fprintf_(options.fout,'  Merit function: %15.8e -> %15.8e\n'\
+                         %(merit0,merit))
                      
                 info.flag=values.fail_unexpected
                 
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 3e7b968..e616ebb 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -178,7 +178,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         #  Check lower and upper bounds.
 
         if (lb[j] > ub[j]):
-            disp_('Error: Lower bound of component ',str(j),' exceeds upper bound !!')
+            if options.verbose:
+                disp_('Error: Lower bound of component ',str(j),' exceeds upper bound !!')
             info.flag=2
             return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,vstatus,\
             xstatus,sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,poised_model,X,fX,Y,fY,\
@@ -197,8 +198,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 continue
             else:
                 Delta0=0.5 * temp[j]
-                disp_(' Diff. between lower and upper bound of component ',str(j),\
-                ' is less than 2*Delta0 !! New Delta0=',str(Delta0))
+                if options.verbose:
+                    disp_(' Diff. between lower and upper bound of component ',str(j),\
+                    ' is less than 2*Delta0 !! New Delta0=',str(Delta0))
                 
         #  Move the starting point inside the bounds if necessary
 
@@ -226,7 +228,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
     if (nfix > 0):
         nfree=n - nfix
         if (nfree <= 0):
-            disp_('No free variables. Please, enlarge search space!')
+            if options.verbose:
+                disp_('No free variables. Please, enlarge search space!')
             info.flag=2
             return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,vstatus,\
             xstatus,sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,poised_model,X,fX,Y,fY,\
@@ -502,15 +505,16 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         
     # Initial printing (1)
 
-    fprintf_('\n')
-    fprintf_('**************************************************************************************\n')
-    fprintf_('*                                                                                    *\n')
-    fprintf_('*       SQPDFO: Sequential-Quadratic-Programming Derivative-Free Optimization        *\n')
-    fprintf_('*                                                                                    *\n')
-    fprintf_('*                        (c)  A. Troeltzsch, 2013-2019                               *\n')
-    fprintf_('*                                                                                    *\n')
-    fprintf_('**************************************************************************************\n')
-    fprintf_('\n')
+    if options.verbose:
+        fprintf_('\n')
+        fprintf_('**************************************************************************************\n')
+        fprintf_('*                                                                                    *\n')
+        fprintf_('*       SQPDFO: Sequential-Quadratic-Programming Derivative-Free Optimization        *\n')
+        fprintf_('*                                                                                    *\n')
+        fprintf_('*                        (c)  A. Troeltzsch, 2013-2019                               *\n')
+        fprintf_('*                                                                                    *\n')
+        fprintf_('**************************************************************************************\n')
+        fprintf_('\n')
     values.dline='-------------------------------------------'
     values.dline=strcat_(values.dline,values.dline) # 80 dashes
     values.eline='==========================================='
-- 
2.43.0


From 8e94e652499906f0d11883524693cac0c59d2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 15/23] fix: keep the subproblem error messages quiet at
 verbosity 0

---
 sqpdfo/bcdfo_solve_TR_MS.py         | 12 ++++++++----
 sqpdfo/sqpdfo_compute_multiplier.py |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 0e3b7f8..a30ef29 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -79,7 +79,8 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         disp_(' bcdfo_solve_TR_MS : ============ enter')
         
     if (length_(find_(numpy.isnan(H))) != 0):
-        disp_(' bcdfo_solve_TR_MS : H contains NaNs!')
+        if (verbose):
+            disp_(' bcdfo_solve_TR_MS : H contains NaNs!')
         msg='error1'
         
         if (verbose):
@@ -88,7 +89,8 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         return s,_lambda,norms,value,gplus,nfact,neigd,msg,hardcase
         
     if (length_(find_( ~numpy.isreal(H))) != 0):
-        disp_(' bcdfo_solve_TR_MS : H contains imaginary parts!')
+        if (verbose):
+            disp_(' bcdfo_solve_TR_MS : H contains imaginary parts!')
         msg='error2'
         
         if (verbose):
@@ -97,7 +99,8 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         return s,_lambda,norms,value,gplus,nfact,neigd,msg,hardcase
         
     if (length_(find_(numpy.isinf(H))) != 0):
-        disp_(' bcdfo_solve_TR_MS : H contains infinite elements!')
+        if (verbose):
+            disp_(' bcdfo_solve_TR_MS : H contains infinite elements!')
         msg='error3'
         
         if (verbose):
@@ -194,7 +197,8 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
             R,p=chol_(H + _lambda * eye_(n),nargout=2)
             
             if (length_(find_(numpy.isnan(R))) != 0):
-                disp_(' bcdfo_solve_TR_MS : NaNs in Cholesky factorization')
+                if (verbose):
+                    disp_(' bcdfo_solve_TR_MS : NaNs in Cholesky factorization')
                 msg='error4'
                 
                 if (verbose):
diff --git a/sqpdfo/sqpdfo_compute_multiplier.py b/sqpdfo/sqpdfo_compute_multiplier.py
index 8328922..3fe3c10 100644
--- a/sqpdfo/sqpdfo_compute_multiplier.py
+++ b/sqpdfo/sqpdfo_compute_multiplier.py
@@ -79,7 +79,8 @@ def sqpdfo_compute_multiplier_(x=None,lb=None,ub=None,info_=None,\
     else:
         lb = lb[:]
         if any_(size_(lb) != [n, 1]):
-            fprintf_('\n### sqpdfo_compute_multiplier: incorrect size of lb\n\n')
+            if options.verbose:
+                fprintf_('\n### sqpdfo_compute_multiplier: incorrect size of lb\n\n')
             info.flag = values.fail_unexpected
             return lm, info
     if (nargin < 5) or isempty_(ub):
@@ -87,7 +88,8 @@ def sqpdfo_compute_multiplier_(x=None,lb=None,ub=None,info_=None,\
     else:
         ub = ub[:]
         if any_(size_(ub) != [n, 1]):
-            fprintf_('\n### sqpdfo_compute_multiplier: incorrect size of ub\n\n')
+            if options.verbose:
+                fprintf_('\n### sqpdfo_compute_multiplier: incorrect size of ub\n\n')
             info.flag = values.fail_unexpected
             return lm, info
 
-- 
2.43.0


From 7388da243caa41db8fb8bcf84c07f5d76ef01b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 16/23] fix: evaluate the constraints at the requested point

Objective and constraints received the same list, so an objective that
works on its argument in place moved the point of the constraints.
---
 sqpdfo/sqpdfo_func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..596f92d 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -35,7 +35,8 @@ def sqpdfo_func_(x=None,*args,**kwargs):
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(xc)
+            # own copy: the objective may have changed its argument
+            c = cfunc(list(x.T[0]))
             c = array(c).reshape(-1, 1)
         except:
             msgc = 1
-- 
2.43.0


From 5ad8c35e9c1f699cb46d79ec3ee492f2e2cfbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 17/23] fix: compare the empty constraint handle by value

---
 sqpdfo/sqpdfo_global_variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 51e44fc..4c22964 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -91,7 +91,7 @@ def set_filename_cons(value):
     global filename_cons
     if isinstance(value, types.FunctionType):
         filename_cons = value
-    elif value is '' or value is None:
+    elif value == '' or value is None:
         filename_cons = ''
     else:
         sys.exit('Error: function handle for the constraints is not of type function !')
-- 
2.43.0


From b8641f3e6e1f30c7657a4474a174681ca4396c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 18/23] fix: leave the warning filters of the process alone

min_ reset the caller's filter for RuntimeWarning on every call.
---
 sqpdfo/runtime.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index a5049ae..bceb95b 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -167,23 +167,22 @@ def min_(a, d=None, nargout=None):#, nargout=0):
     
     
     #The warnigns happens when NaNs are involved, but the function returns in any case what we want, so no need to print the warnings or to worry about them.
-    warnings.simplefilter('ignore', RuntimeWarning)
-    if isempty_(a):
-        ret = np.array([])                    
-    elif d is not None:
-        ret=np.fmin(a,d)
-    else:
-        ret = np.nanmin(a)   
-    if nargout == 2:
+    with warnings.catch_warnings():
+        warnings.simplefilter('ignore', RuntimeWarning)
         if isempty_(a):
-            ret2 = np.array([])                                    
+            ret = np.array([])                    
+        elif d is not None:
+            ret=np.fmin(a,d)
         else:
-            ret2 = np.nanargmin(a)  
-        warnings.simplefilter('default', RuntimeWarning)
-        return ret, ret2
-    else:
-        warnings.simplefilter('default', RuntimeWarning)
-        return ret                                
+            ret = np.nanmin(a)   
+        if nargout == 2:
+            if isempty_(a):
+                ret2 = np.array([])                                    
+            else:
+                ret2 = np.nanargmin(a)  
+            return ret, ret2
+        else:
+            return ret                                
 
 
 def numel_(a):
-- 
2.43.0


From 90422b37ad17303ec7ca1c171aeef4a3172c1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 19/23] fix: document the status codes that are returned

---
 sqpdfo/sqpdfo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 5802c1d..382432f 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -61,12 +61,12 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
 #      1: an argument is wrong
 #      2: unaccepted problem structure
 #      3: error on a function evaluation
-#      4: max iterations
-#      5: max simulations
-#      6: stop required
+#      4: stop required
+#      5: max iterations
+#      6: max simulations
 #      7: stop on dxmin
-#      8: infeasible QP
-#      9: unbounded QP
+#      8: the merit function cannot be decreased
+#     15: trust-region radius too small
 #     30: unexpected exit
 #   info.niter: number of realized iterations
 #   info.nsimul[1]: number of function evaluations
-- 
2.43.0


From 60cef96e61895e2f0140825dfebe75e93eb9743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 20/23] fix: a problem without finite bounds and constraints no
 longer crashes in the optimality test

---
 sqpdfo/sqpdfo_optimality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_optimality.py b/sqpdfo/sqpdfo_optimality.py
index 5781f5a..d5ae6d1 100644
--- a/sqpdfo/sqpdfo_optimality.py
+++ b/sqpdfo/sqpdfo_optimality.py
@@ -38,7 +38,8 @@ def sqpdfo_optimality_(x=None,lm=None,lb=None,ub=None,info_=None,options=None,*a
             info.glag[i],lm[i]))
             
     I=find_(bounds[0:n])
-    info.glag[I]=info.glag[I] + lm[I]
+    if not isempty_(I):
+        info.glag[I]=info.glag[I] + lm[I]
 
     # contribution of the equality constraints
     
-- 
2.43.0


From 9fa4da5f6f957e8eb95c8edd7e112e272c36ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 21/23] fix: detailed printing works on problems without bounds
 and constraints

---
 sqpdfo/sqpdfo_optimality.py | 2 +-
 sqpdfo/sqpdfo_prelim.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_optimality.py b/sqpdfo/sqpdfo_optimality.py
index d5ae6d1..64fa737 100644
--- a/sqpdfo/sqpdfo_optimality.py
+++ b/sqpdfo/sqpdfo_optimality.py
@@ -31,7 +31,7 @@ def sqpdfo_optimality_(x=None,lm=None,lb=None,ub=None,info_=None,options=None,*a
 
     # contribution of the variable bounds
 
-    if options.verbose >= 4:
+    if options.verbose >= 4 and not isempty_(lm):
         fprintf_('\n     lb             x            ub             glag            lm\n')
         for i in range(0,n):
             fprintf_('%12.5e  %12.5e  %12.5e  %12.5e  %12.5e\n'%(lb[i],x[i],ub[i],\
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index e616ebb..92efd14 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -448,7 +448,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
     if any_(size_(gx) != [n,1]):
         if options.verbose:
             fprintf_(options.fout,'### sqpdfo: the computed gradient g has a wrong ',\
-            'size, (%0i,%0i) instead of (%0i,1)\n\n'%(size_(gx),n))
+            'size, (%0i,%0i) instead of (%0i,1)\n\n'%(size_(gx,1),size_(gx,2),n))
             
         info.flag=values.fail_on_simul
         
@@ -553,14 +553,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and isfield_(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
-- 
2.43.0


From c4c6c8117df1935b6158a12eae4ed3a67df865fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 22/23] fix: a change in the number of constraint values is an
 evaluation failure, not a crash

---
 sqpdfo/sqpdfo_augmX_evalf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..8586593 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -159,6 +159,13 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
         
         return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
         
+    if m > 0 and size_(ce,1) != size_(ceX,1):
+        if options.verbose:
+            fprintf_(options.fout,'### sqpdfo_augmX_evalf: the number of constraint values has changed\n\n')
+        info.flag=values.fail_on_simul
+        
+        return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
+        
     #  Augment fX, ciX, and ceX with new function and constraint value
 
     try:
-- 
2.43.0


From 90bb903564bd442248c70c8dc64343e433e8018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 23/23] fix: a failure in the initial design returns the
 objective value of the returned point

---
 sqpdfo/sqpdfo_prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 92efd14..a6ebbf3 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -362,6 +362,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 dstatus,scaleX,scalefacX,info,options,values,nargout=9)
                 
             if info.flag:
+                # x is the first point of Y, not the one that failed
+                info.f=fX[0] if i > 0 else np.NaN
                 return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,\
                    vstatus,xstatus,sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,\
                    poised_model,X,fX,Y,fY,ciX,ciY,ceX,ceY,poisedness_known,m,\
-- 
2.43.0

