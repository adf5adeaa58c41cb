From 4fb51aea8e33c710b7b4d920eabb46ba4ea7456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 01/37] fix: do not overwrite solver.max_steps when no
 evolution is needed

evolve_to_time stored its per-call step limit in self.max_steps, so asking once
for a time that was already reached (or switching dt_variable) left
max_steps = 0 and every later call failed with 'Maximum number of timesteps'.
The accompanying info message also passed its second half as a format argument.
---
 src/pyclaw/solver.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..aa4daae 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -583,12 +583,15 @@ class Solver(object):
         num_steps = 0
 
         # Setup for the run
+        # Note that the step limit for this call must not alter self.max_steps,
+        # which also applies to later calls.
+        max_steps = self.max_steps
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
@@ -597,12 +600,12 @@ class Solver(object):
                             'CFL')
         if not take_one_step:
             if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
+                self.logger.info("Already at or beyond end time: no evolution "
                                  "required.")
-                self.max_steps = 0
+                max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -660,7 +663,7 @@ class Solver(object):
 
         if not take_one_step:
             if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
+                    and num_steps == max_steps:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From 11838fd94a777b4393e550a658b00b3bb15a7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 02/37] fix: raise when the step limit is exhausted by rejected
 steps

Rejected steps use up iterations of the time-stepping loop but not num_steps,
so a run with any rejection could hit max_steps and return normally without
having reached tend.
---
 src/pyclaw/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index aa4daae..9a44d0e 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -662,8 +662,7 @@ class Solver(object):
         # End of main time-stepping loop -------------------------------------
 
         if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == max_steps:
+            if self.dt_variable and solution.t < tend:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From 21d795d2d21e18c99e5a5e3ea1a1aaeaf958d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 03/37] fix: deallocate the lim_type=3 reconstruction workspace

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..161c2e4 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -83,8 +83,11 @@ contains
                     deallocate(hh)
                     deallocate(uh)
             end select
-            recon_alloc = .False.
+            case(3)
+                deallocate(uu)
+                deallocate(dq1m)
         end select
+        recon_alloc = .False.
     end subroutine dealloc_recon_workspace
 
 ! ===================================================================
-- 
2.43.0


From 0cea169124846baf99b8a4a612499ac5ff75746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 04/37] fix: SharpClaw reconstruction read past the end of
 short grid slices

---
 src/pyclaw/sharpclaw/flux1.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..bc5dbe1 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -87,7 +87,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         case(2) ! lim_type = 2: High-order WENO reconstruction
         select case (char_decomp)
             case (0) ! no characteristic decomposition
-                call weno_comp(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+                call weno_comp(q1d,ql,qr,num_eqn,mx,num_ghost)
             case (1) ! wave-based reconstruction
                 if (num_dim.eq.1) then
                     call rp(maxnx,num_eqn,num_waves,num_aux,num_ghost,mx,&
@@ -104,7 +104,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
                 endif
             case (2) ! characteristic-wise reconstruction
                 call evec(mx,num_eqn,num_ghost,mx,q1d,aux,aux,evl,evr)
-                call weno5_char(q1d,ql,qr,maxnx,num_eqn,num_ghost,evl,evr)
+                call weno5_char(q1d,ql,qr,mx,num_eqn,num_ghost,evl,evr)
             case (3) ! transmission-based reconstruction
                 call evec(mx,num_eqn,num_ghost,mx,q1d,aux,aux,evl,evr)
                 call weno5_trans(q1d,ql,qr,evl,evr)
@@ -114,7 +114,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
                 stop
         end select
         case(3)
-            call weno5(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+            call weno5(q1d,ql,qr,num_eqn,mx,num_ghost)
         case default
             write(*,*) 'ERROR: Unrecognized limiter type option'
             write(*,*) 'You should set 1<=lim_type<=3'
-- 
2.43.0


From fee1504955b8bdcd926e28858e8549ffb62d1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 05/37] fix: SharpClaw Fortran kernel used the capacity
 function shifted by num_ghost cells

---
 src/pyclaw/sharpclaw/flux1.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index bc5dbe1..d391c41 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From 4f374d0a393ab91b32ae0ae2ab5342d4ae3e87a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 06/37] fix: weno5_wave read cell averages and waves outside
 the grid arrays

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 161c2e4..395fbea 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -429,7 +429,7 @@ contains
         mx2  = size(q,2); num_eqn = size(q,1); num_waves=size(wave,2)
 
         ! loop over interfaces (i-1/2)
-        do i=2,mx2
+        do i=num_ghost+1,mx2-num_ghost+1
             ! Compute the part of the reconstruction that is stencil-independent
             do m=1,num_eqn
                 qr(m,i-1) = (-q(m,i-2)+7.*(q(m,i-1)+q(m,i))-q(m,i+1))/12.
-- 
2.43.0


From b1fd140e70d1cf67c1e02bb537e019d8756872a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 07/37] fix: weno5_fwave read cell averages outside the grid
 array

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 395fbea..211de9d 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -513,12 +513,12 @@ contains
       ! convert fwaves to waves by dividing by the sound speed
       ! We do this in place to save memory
       ! and get away with it because the waves are never used again
-      forall(i=1:mx2,mw=1:num_waves,m=1:num_eqn)
+      forall(i=2:mx2,mw=1:num_waves,m=1:num_eqn)
           fwave(m,mw,i)=fwave(m,mw,i)/s(mw,i)
       end forall
 
       ! loop over interfaces (i-1/2)
-      do i=2,mx2+2
+      do i=num_ghost+1,mx2-num_ghost+1
         ! Compute the part of the reconstruction that is
         !  stencil-independent
         do m=1,num_eqn
-- 
2.43.0


From 10542ea02e37e16de23a50bd10b197f1394d6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 08/37] fix: tvd2 divided by zero slopes, giving NaN with the
 van Leer limiter

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 211de9d..b224c1a 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -606,10 +606,16 @@ contains
 
             ! compute and store the differences of the cell averages
 
+            dqp=0.d0
+
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.ne.0.d0) then
+                    r=dqp/dqm
+                else
+                    r=0.d0
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From 9696bdf95b3eb4553a36e89c2742fb128da3d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 09/37] fix: tvd2_wave left the last interface of the grid
 unreconstructed

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index b224c1a..5240809 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -776,7 +776,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From ece8ef3b92c7575a7ffbdc945ecce814de5c9e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:19 +0000
Subject: [PATCH 10/37] fix: SharpClaw step selection ignored dt_max

---
 src/pyclaw/sharpclaw/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..da1fc03 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -684,6 +684,7 @@ class SharpClawSolver(Solver):
         else:
             self.dt = self.dt * self.cfl_desired / cfl
 
+        self.dt = min(self.dt_max, self.dt)
 
 
 # ========================================================================
-- 
2.43.0


From 62739c48e556f5f814221b12ebeca5dd93d7fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:19 +0000
Subject: [PATCH 11/37] fix: fixed steps were refused for tiny time scales and
 for end times already reached

---
 src/pyclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 9a44d0e..5b00d29 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -589,8 +589,8 @@ class Solver(object):
         if not self.dt_variable:
             if take_one_step:
                 max_steps = 1
-            else:
-                max_steps = int((tend - tstart + 1e-10) / self.dt)
+            elif tend > tstart:
+                max_steps = int(round((tend - tstart) / self.dt))
                 if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
-- 
2.43.0


From ec274d4fad6dba466e2b3ea745a236f4ae210f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 12/37] fix: the last step of a fixed-step run altered dt and
 the reported time

---
 src/pyclaw/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 5b00d29..2b5880b 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -545,7 +545,8 @@ class Solver(object):
             self.dt_old = self.dt
 
         # Adjust dt so that we hit tend exactly if we are near tend
-        if not take_one_step:
+        # (a fixed step size must never be altered)
+        if self.dt_variable and not take_one_step:
             if t + self.dt > tend and tstart < tend:
                 self.dt = tend - t
             if tend - t - self.dt < 1.e-14*t:
-- 
2.43.0


From 2df64c88089aa8e9e064e84c75383af99d55c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:50 +0000
Subject: [PATCH 13/37] fix: source term was skipped on accepted steps with
 Courant number equal to cfl_max

---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..0439171 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From d3bc970535ec9f2eb098d68fbaaafe14a3328e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:19 +0000
Subject: [PATCH 14/37] fix: the SSP22 integrator could not be used (no
 registers were allocated for it)

---
 src/pyclaw/sharpclaw/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index da1fc03..185cb31 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -602,6 +602,7 @@ class SharpClawSolver(Solver):
         # Generally the number of registers for the starting method should be at most 
         # equal to the number of registers of the LMM
         if self.time_integrator   == 'Euler':   nregisters=0
+        elif self.time_integrator == 'SSP22':   nregisters=1
         elif self.time_integrator == 'SSP33':   nregisters=1
         elif self.time_integrator == 'SSP104':  nregisters=1
         elif self.time_integrator == 'RK':      nregisters=len(self.b)+1
-- 
2.43.0


From 1f201f6a70be2a5e4ba59f795d95a3c248b91b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:19 +0000
Subject: [PATCH 15/37] fix: general RK integrator called before_step before
 computing the stage value

---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 185cb31..acb63dd 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -336,10 +336,10 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
 
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
-- 
2.43.0


From 1f31a6f38f133879cf10fe0896988b27ea575a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:48 +0000
Subject: [PATCH 16/37] fix: several Python limiters reduced over all
 interfaces instead of interface by interface

---
 src/pyclaw/limiters/tvd.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..0b445e7 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -323,17 +323,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -387,20 +387,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    cfl = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
     b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -413,10 +413,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -439,9 +439,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From ebd60b1c8a38bac8b21bcf3dbbdf82de482dc6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:48 +0000
Subject: [PATCH 17/37] fix: Cada-Torrilhon limiter scaled only every other
 interface

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 0b445e7..b2c0e8b 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -395,7 +395,7 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
+    b[1:,:] *= (1.0 - epsilon)
     a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
-- 
2.43.0


From b000b2137c76fd30661ba4534b07167093665381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:55 +0000
Subject: [PATCH 18/37] fix: Python superbee limiter never exceeded one

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index b2c0e8b..55b979a 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -157,7 +157,7 @@ def superbee_limiter(r,cfl):
     Superbee vectorized limiter
     """
     a = np.ones((2,len(r)))
-    b = np.zeros((2,len(r)))
+    b = np.ones((2,len(r))) * 2.0
     c = np.zeros((3,len(r)))
 
     a[1,:] = 2.0*r
-- 
2.43.0


From 32c2652170fe16f9c6187e95b6be3d7b22f1fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 19/37] fix: 3D dimensional splitting left ghost rows stale
 between sweeps (not conservative with limiters)

---
 src/pyclaw/classic/step3ds.f90 | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..ed01893 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -131,8 +131,13 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform x-sweeps
         ! ==================
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        ! note that for dimensional splitting we sweep over the rows of
+        ! ghost cells as well as the interior.  This updates the ghost
+        ! cell values to the intermediate state as needed in the following
+        ! sweeps.
+
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -148,9 +153,11 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 ! Since dimensional splitting is used, only aux2 is needed.
             
                 if (num_aux > 0)  then
-                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
-                    aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
-                    end forall
+                    do ka = max(-1,1-num_ghost-k), min(1,mz+num_ghost-k)
+                        forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost)
+                        aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
+                        end forall
+                    end do
                 endif
             
                 ! Store the value of j and k along this slice in the common block
@@ -212,7 +219,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
+        do k = 1-num_ghost, mz+num_ghost
             do i = 0, mx+1
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
-- 
2.43.0


From 468c77893359bf4b3b65a7d1f730f295c01d1a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:31 +0000
Subject: [PATCH 20/37] fix: Grid.c_center used its index list as a row
 selection

---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..31caa6c 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -325,7 +325,7 @@ class Grid(object):
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
 
-        index = [np.array(i) for i in ind]
+        index = tuple(np.array(i) for i in ind)
         return np.array([self.c_centers[i][index] for i in range(self.num_dim)])
 
     def p_center(self,ind):
-- 
2.43.0


From f8d03e22912790793f4dd38446c7c3a31b6759e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:52 +0000
Subject: [PATCH 21/37] fix: cached grid coordinates could be stale after a
 dimension changed

---
 src/pyclaw/geometry.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 31caa6c..01cc9d9 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -211,6 +211,7 @@ class Grid(object):
         self._p_nodes = None
         self._c_centers = None
         self._c_nodes = None
+        self._cached_from = {}
 
         # Dimension parsing
         if isinstance(dimensions,Dimension):
@@ -226,6 +227,16 @@ class Grid(object):
         self._p_nodes = None
         self._c_centers = None
         self._c_nodes = None
+        self._cached_from = {}
+
+    def _is_stale(self, cache):
+        r"""Whether the named cached array is missing or was computed from
+        coordinates that a dimension has since replaced."""
+        source = self._cached_from.get(cache)
+        if getattr(self, cache) is None or source is None:
+            return True
+        current = self.get_dim_attribute(cache[3:])
+        return any(old is not new for old,new in zip(source,current))
 
     # ========== Dimension Manipulation ======================================
     def add_dimension(self,dimension):
@@ -280,12 +291,12 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        if recompute or self._is_stale('_c_centers'):
             index = np.indices(self.num_cells)
             self._c_centers = []
             for i,center_array in enumerate(self.get_dim_attribute('centers')):
                 self._c_centers.append(center_array[index[i,...]])
+            self._cached_from['_c_centers'] = self.get_dim_attribute('centers')
 
     def _compute_c_nodes(self, recompute=False):
         r"""Calculate the coordinates of the nodes in the computational domain.
@@ -293,12 +304,12 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        if recompute or self._is_stale('_c_nodes'):
             index = np.indices(n+1 for n in self.num_cells)
             self._c_nodes = []
             for i,edge_array in enumerate(self.get_dim_attribute('nodes')):
                 self._c_nodes.append(edge_array[index[i,...]])
+            self._cached_from['_c_nodes'] = self.get_dim_attribute('nodes')
 
     def _compute_p_centers(self, recompute=False):
         r"""Calculate the coordinates of the centers in the physical domain.
@@ -306,10 +317,10 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        if recompute or self._is_stale('_p_centers'):
             self._compute_c_centers(recompute=recompute)
             self._p_centers = self.mapc2p(*self._c_centers)
+            self._cached_from['_p_centers'] = self.get_dim_attribute('centers')
 
     def _compute_p_nodes(self, recompute=False):
         r"""Calculate the coordinates of the nodes (corners) in the physical domain.
@@ -317,10 +328,10 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        if recompute or self._is_stale('_p_nodes'):
             self._compute_c_nodes(recompute=recompute)
             self._p_nodes = self.mapc2p(*self._c_nodes)
+            self._cached_from['_p_nodes'] = self.get_dim_attribute('nodes')
 
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
-- 
2.43.0


From cbd535283cf17e9f11329b33b80f970b53ae80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:40 +0000
Subject: [PATCH 22/37] fix: deep copies lost capacity index and derived
 quantities, and their states did not live on the copied domain

---
 src/pyclaw/geometry.py |  8 ++++----
 src/pyclaw/solution.py |  6 +++---
 src/pyclaw/state.py    | 14 ++++++++++----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 01cc9d9..3a62562 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -733,7 +733,7 @@ class Patch(object):
         """
         return [getattr(getattr(self,name),attr) for name in self._dimensions]
 
-    def __deepcopy__(self,memo={}):
+    def __deepcopy__(self,memo=None):
         import copy
         result = self.__class__(copy.deepcopy(self.dimensions))
         result.__init__(copy.deepcopy(self.dimensions))
@@ -818,10 +818,10 @@ class Domain(object):
         """
         return getattr(self.patches[0],name)
 
-    def __deepcopy__(self,memo={}):
+    def __deepcopy__(self,memo=None):
         import copy
-        result = self.__class__(copy.deepcopy(self.patches))
-        result.__init__(copy.deepcopy(self.patches))
+        result = self.__class__(copy.deepcopy(self.patches,memo))
+        result.__init__(copy.deepcopy(self.patches,memo))
 
         return result
 
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..fde3537 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -235,7 +235,7 @@ class Solution(object):
         return self.__class__(self)
     
     
-    def __deepcopy__(self,memo={}):
+    def __deepcopy__(self,memo=None):
         import copy
         # Create basic container
         result = self.__class__()
@@ -243,8 +243,8 @@ class Solution(object):
         
         # Populate the states
         for state in self.states:
-            result.states.append(copy.deepcopy(state))
-        result.domain = copy.deepcopy(self.domain)
+            result.states.append(copy.deepcopy(state,memo))
+        result.domain = copy.deepcopy(self.domain,memo)
         
         return result
     
diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..0aa453e 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -307,18 +307,24 @@ class State(object):
     def __copy__(self):
         return self.__class__(self)
         
-    def __deepcopy__(self,memo={}):
+    def __deepcopy__(self,memo=None):
         import copy
-        result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
-        result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
+        result = self.__class__(copy.deepcopy(self.patch,memo),self.num_eqn,self.num_aux)
+        result.__init__(copy.deepcopy(self.patch,memo),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa','keep_gauges','gauge_data'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
             result.q = copy.deepcopy(self.q)
         if self.aux is not None:
             result.aux = copy.deepcopy(self.aux)
+        if self.mp > 0:
+            result.mp = self.mp
+            result.p[...] = self.p
+        if self.mF > 0:
+            result.mF = self.mF
+            result.F[...] = self.F
         result.problem_data = copy.deepcopy(self.problem_data)
         
         return result
-- 
2.43.0


From 33f24623e47b3ecda5d0b370d67b5224942cba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 23/37] fix: Controller.run failed when the start time is the
 only output time

---
 src/pyclaw/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..289d6ec 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -354,6 +354,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
-- 
2.43.0


From c9cba1b60cada6bb21c541efa8dc4e766a3031c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:46 +0000
Subject: [PATCH 24/37] fix: writing VTK output appended a component to the
 solution

---
 src/pyclaw/fileio/claw_vtk.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..b750daf 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -111,7 +111,7 @@ def write(
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-    _set_overlapped_status(solution)
+    overlapped_status = _get_overlapped_status(solution)
 
     global_origin = solution.state.patch.lower_global + [0.]  # base patch
     levels = [state.patch.level-1 for state in solution.states]
@@ -182,7 +182,8 @@ def write(
             # get the cell data, and add each to the uniform grid.
             # ignore the last element of q, which provides info about overlapping.
             # it is set next.
-            q = states_sorted[local_index].q
+            state = states_sorted[local_index]
+            q = np.vstack((state.q, overlapped_status[id(state)]))
 
             for i in range(q.shape[0]-1):
                 array_name = "q_"+str(i)
@@ -233,17 +234,16 @@ def write(
     assert success == 1
 
 
-def _set_overlapped_status(sol):
+def _get_overlapped_status(sol):
     """
-    return a list, overlapped_states,
-    whose entries denote overlapped status for each patch.
+    return a dictionary, whose entries denote overlapped status for each patch.
 
     @type sol:  pyclaw.Solution
     @param sol: Solution object of pyclaw that contains all information
                 of this time step.
-    @rtype:     list
-    @return:    add a component to the solution q,
-                which contains overlapped status of each patch
+    @rtype:     dictionary
+    @return:    maps the id of each state to an array with one component,
+                which contains overlapped status of each cell of its patch
 
     @type level_count:       dictionary
     @variable level_count:   a dictionary that maps levels
@@ -276,6 +276,7 @@ def _set_overlapped_status(sol):
                             key=lambda a: a[0])]
     box_per_level = np.array(box_per_level)
 
+    all_status = {}
     for state in sol.states:
         level = state.patch.level-1
         xlower_coarse = state.patch.dimensions[0].lower
@@ -323,4 +324,5 @@ def _set_overlapped_status(sol):
                 continue
         # state.q is in fortran style
         # state.q = np.vstack((state.q, overlapped_status.transpose(0, 2, 1)))
-        state.q = np.vstack((state.q, overlapped_status))
+        all_status[id(state)] = overlapped_status
+    return all_status
-- 
2.43.0


From 4ec6fd3aa91348265885cf38a256e84c5229395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:46 +0000
Subject: [PATCH 25/37] fix: VTK output marked cells as covered by finer
 patches lying elsewhere

---
 src/pyclaw/fileio/claw_vtk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index b750daf..45ad7b1 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -308,14 +308,14 @@ def _get_overlapped_status(sol):
                     max(int(round((xlower_fine - xlower_coarse) /
                             float(dx))), 0)
                 x_idx_upper = \
-                    min(int(round((xupper_fine-xlower_fine)/dx)) +
-                        x_idx_lower, nx)
+                    max(min(int(round((xupper_fine-xlower_coarse)/dx)),
+                            nx), 0)
                 y_idx_lower = \
                     max(int(round((ylower_fine - ylower_coarse) /
                             float(dy))), 0)
                 y_idx_upper = \
-                    min(int(round((yupper_fine-ylower_fine)/dy)) +
-                        y_idx_lower, ny)
+                    max(min(int(round((yupper_fine-ylower_coarse)/dy)),
+                            ny), 0)
                 # set these cells to 8
                 overlapped_status[0, x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
-- 
2.43.0


From 24ece330c68480459f07eca39746bacdc0b46600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 26/37] fix: VTK output attached patches to the wrong level
 when states are not ordered by level

---
 src/pyclaw/fileio/claw_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 45ad7b1..574bc94 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -148,7 +148,7 @@ def write(
 
     # for each AMR level create the vtkAMRBox and vtkUniformGrid and add to
     # the vtkOverlappingAMR object.
-    for level in level_count.keys():
+    for level in sorted(level_count.keys()):
         # get number of blocks per level.
         nblocks = blocksPerLevel[level]
 
-- 
2.43.0


From 87963ad2a3808718fdc34000f72f475c5cf41ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 27/37] fix: binary aux data without ghost cells was read as an
 empty array

---
 src/pyclaw/fileio/binary.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..c09f491 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -192,13 +192,22 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             # Fill in aux values
             if patch.num_dim == 1:
                 ##  NOT YET TESTED ##
-                state.aux = auxpatch[:,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
                 ## FIXED FOR BINARY ##
-                state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc]
             elif patch.num_dim == 3:
                 ##  NOT YET TESTED ##
-                state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc,mbc:-mbc]
             else:
                 msg = "Read only supported up to 3d."
                 logger.critical(msg)
-- 
2.43.0


From 67f560d74cbfede937bd01f4a38d41e95a275121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:08 +0000
Subject: [PATCH 28/37] fix: ascii output of derived quantities announced the
 wrong number of components

---
 src/pyclaw/fileio/ascii.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..7922f28 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -42,7 +42,8 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        f.write("%5i                  num_eqn\n"
+                % (solution.mp if write_p else solution.num_eqn))
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
-- 
2.43.0


From e971636f054f905f595fc745d3ae9395212d9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:08 +0000
Subject: [PATCH 29/37] fix: HDF5 output of derived quantities announced the
 wrong number of components

---
 src/pyclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..fe56939 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -111,7 +111,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From ea6c81a20aa4eca2c5bacd93f6189d2a238d1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:08 +0000
Subject: [PATCH 30/37] fix: reading a frame into a solution that already has
 states appended to them

---
 src/pyclaw/solution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index fde3537..5e4c149 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -356,6 +356,8 @@ class Solution(object):
             options['format'] = file_format
 
         path = os.path.expandvars(os.path.expanduser(path))
+        # The readers append the states they find to this list
+        self.states = []
         if file_prefix is None:
             read_func(self,frame,path,read_aux=read_aux,options=options)
         else:
-- 
2.43.0


From e0d2636152ec5bfe9a08a3bf28f22ca624e00cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:22 +0000
Subject: [PATCH 31/37] fix: gauges could not be used in three dimensions

---
 src/pyclaw/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 2b5880b..81b9e50 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -698,6 +698,11 @@ class Solver(object):
                 if solution.num_aux > 0:
                     aux = solution.state.aux[:,ix,iy]
                 q=solution.state.q[:,ix,iy]
+            elif self.num_dim == 3:
+                ix, iy, iz = gauge
+                if solution.num_aux > 0:
+                    aux = solution.state.aux[:,ix,iy,iz]
+                q=solution.state.q[:,ix,iy,iz]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From a841c0e8dd87dc407f14995bc330a1ae6da7bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:22 +0000
Subject: [PATCH 32/37] fix: a gauge next to the upper boundary could be given
 a cell outside the grid

---
 src/pyclaw/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 3a62562..12a8d3b 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -408,8 +408,10 @@ class Grid(object):
         for gauge in gauge_coords:
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
-                # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                # Set indices relative to this grid (rounding must not put a
+                # gauge close to the upper boundary in a cell outside the grid)
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From 36deab480e8899eb0750cde0021774dbb9c75e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:22 +0000
Subject: [PATCH 33/37] fix: a second controlled run with gauges wrote to
 closed gauge files

---
 src/pyclaw/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 12a8d3b..135904a 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -429,6 +429,7 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        self.gauge_files = []
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
             if os.path.isfile(gauge_file):
-- 
2.43.0


From 159a3e39af9081a245e68f7e92c043c15bf83213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:37 +0000
Subject: [PATCH 34/37] fix: retract the step backup together with a discarded
 SSPLMMk3 step

When the linear multistep condition fails, update_saved_values discards the
last step and goes back to the one before it, but evolve_to_time still held
the discarded step as its backup.  If the retaken step was then rejected for
its CFL number, the solution was set back to the discarded step while the
saved derivatives belonged to the earlier one.
---
 src/pyclaw/sharpclaw/solver.py |  2 ++
 src/pyclaw/solver.py           | 11 +++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index acb63dd..7643085 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -459,6 +459,8 @@ class SharpClawSolver(Solver):
                         state.q[:] = self._registers[-1].q
                         self.dq_dt = self.prev_dq_dt_values[-1]
                         state.t = self._registers[-1].t
+                        self._q_backup = state.q.copy('F')
+                        self._t_backup = state.t
                         self.status['numsteps'] -= 1
                         return self.status['numsteps'] + 1
 
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 81b9e50..affa92c 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -177,6 +177,8 @@ class Solver(object):
         self._use_old_bc_sig = False
         self.accept_step = True
         self.before_step = None
+        self._q_backup = None
+        self._t_backup = None
 
         # select package to build solver objects from, by default this will be
         # the package that contains the module implementing the derived class
@@ -612,8 +614,9 @@ class Solver(object):
 
             # Keep a backup in case we need to retake a time step
             if self.dt_variable:
-                q_backup = state.q.copy('F')
-                told = solution.t
+                # (a solver that goes back further than this updates the backup)
+                self._q_backup = state.q.copy('F')
+                self._t_backup = solution.t
 
             if self.before_step is not None:
                 self.before_step(self, solution.states[0])
@@ -646,8 +649,8 @@ class Solver(object):
                 # Reject this step
                 self.logger.debug("Rejecting time step, CFL number too large")
                 if self.dt_variable:
-                    state.q = q_backup
-                    solution.t = told
+                    state.q = self._q_backup
+                    solution.t = self._t_backup
                 else:
                     # Give up, we cannot adapt, abort
                     self.status['cflmax'] = \
-- 
2.43.0


From f2bd8b3a716c6e17c696ab2dbd8126f37555c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:29 +0000
Subject: [PATCH 35/37] fix: write all coordinates of a gauge location (1D
 raised, 3D lost one)

---
 src/pyclaw/gauges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..1f7ed4a 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -248,8 +248,9 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, " ".join(["%s" % x for x in self.location]),
+                  self.q.shape[0]))
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From ff29d0e01815396629a3a0aa12b7b47eafe503c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:29 +0000
Subject: [PATCH 36/37] fix: keep the type of a lagrangian gauge when writing
 it

---
 src/pyclaw/gauges.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 1f7ed4a..3bdc493 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -251,6 +251,8 @@ class GaugeSolution(object):
             gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
                  (self.id, " ".join(["%s" % x for x in self.location]),
                   self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# Lagrangian particle\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From 4ee99a4279e9a1f81fd9c81c3eeed1a2be12868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:29 +0000
Subject: [PATCH 37/37] fix: let convert_gauges compare with the old file and
 accept a single record

---
 src/pyclaw/gauges.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 3bdc493..b753e91 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -373,7 +373,7 @@ def convert_gauges(path, output_path=None):
         output_path = os.getcwd()
 
     # Load old data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     unique_ids = np.asarray(list(set(old_ids)))
 
@@ -389,7 +389,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
@@ -423,7 +423,7 @@ def compare_old_gauges(old_path, new_path, gauge_id, plot=False, abs_tol=1e-14,
     """
 
     # Load old gauge data
-    data = np.loadtxt(old_path)
+    data = np.loadtxt(old_path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
@@ -472,7 +472,7 @@ def check_old_gauge_data(path, gauge_id, new_gauge_path="./regression_data"):
     import matplotlib.pyplot as plt
 
     # Load old gauge data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
-- 
2.43.0

