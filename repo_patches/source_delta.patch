From 7c80aa8ba3f46ecd48b2d0468287fadcc75d496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 01/80] fix: accept the documented long name
 timevarying_parameter in Model.set_variable

---
 do_mpc/model/_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 681aa34..a78d283 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -586,8 +586,8 @@ class Model:
         var_type =var_type.replace('states', '_x'
             ).replace('inputs', '_u'
             ).replace('algebraic', '_z'
-            ).replace('parameter', '_p'
-            ).replace('timevarying_parameter', '_tvp')
+            ).replace('timevarying_parameter', '_tvp'
+            ).replace('parameter', '_p')
 
         # Check validity of var_type:
         assert var_type in ['_x','_u','_z','_p','_tvp'], 'Trying to set non-existing variable var_type: {} with var_name {}'.format(var_type, var_name)
-- 
2.43.0


From 4f342e9e47f3ad04e4a21a6de0fc317fa0ede067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 02/80] fix: give process and measurement noise the shape of
 the (matrix) expression

---
 do_mpc/model/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index a78d283..6ec3f15 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -715,7 +715,7 @@ class Model:
 
         # Create a new process noise variable and add it to the rhs equation.
         if meas_noise:
-            var = self.sv.sym(meas_name+'_noise', expr.shape[0])
+            var = self.sv.sym(meas_name+'_noise', expr.shape)
 
             self._v['name'].append(meas_name+'_noise')
             self._v['var'].append(var)
@@ -783,9 +783,9 @@ class Model:
         # Create a new process noise variable and add it to the rhs equation.
         if process_noise:
             if self.symvar_type == 'MX':
-                var = castools.MX.sym(var_name+'_noise', expr.shape[0])
+                var = castools.MX.sym(var_name+'_noise', expr.shape)
             else:
-                var = castools.SX.sym(var_name+'_noise', expr.shape[0])
+                var = castools.SX.sym(var_name+'_noise', expr.shape)
 
             self._w['name'].append(var_name + '_noise')
             self._w['var'].append(var)
-- 
2.43.0


From c2323706f6a7cea67e61e5ac00533fe311b0e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 03/80] fix: keep a restored Model picklable

---
 do_mpc/model/_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 6ec3f15..eec53b2 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -151,12 +151,12 @@ class Model:
         """
         self.__dict__.update(state)
 
-        # Update expressions with new symbolic variables created when unpickling:
-        self._rhs = self._rhs(self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._alg = self._alg(self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._aux_expression = self._aux_expression(self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
-        self._y_expression = self._y_expression(self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))
-
+        # Update expressions with new symbolic variables created when unpickling
+        # (in place, such that the unpickled model can be pickled again):
+        self._rhs.master = self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._alg.master = self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._aux_expression.master = self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p)
+        self._y_expression.master = self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v)
 
     def __getitem__(self, ind):
         """The :py:class:`Model` class supports the ``__getitem__`` method,
-- 
2.43.0


From d069aa2a70970daec8480f3ccb4662e2a1c8a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 04/80] fix: accept casadi.DM when setting t0

---
 do_mpc/model/_iteratedvariables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 9a1d35e..a96455c 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -205,7 +205,7 @@ class IteratedVariables:
             assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
             self._t0 = val.flatten()
         elif isinstance(val, castools.DM):
-            assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
+            assert val.numel() == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.shape)
             self._t0 = val.full().flatten()
         else:
             types = (np.ndarray, float, int, castools.DM)
-- 
2.43.0


From 1a7fd5ad2533f1de0804cd04da4cca21d832b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/80] fix: raise the documented ValueError for non-linear
 equations of a LinearModel

---
 do_mpc/model/_linearmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index c999827..b910b15 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -142,7 +142,7 @@ class LinearModel(Model):
             rhs : CasADi SX function depending on ``_x``, ``_u``, ``_tvp``, ``_p``.
         """
         # Check if expression is linear
-        if castools.evalf(castools.jacobian(rhs, castools.vertcat(self.x, self.u))).is_constant():
+        if castools.jacobian(rhs, castools.vertcat(self.x, self.u)).is_constant():
             super(LinearModel, self).set_rhs(name, rhs, process_noise=True)
         else:
             raise ValueError("Given rhs is not linear.")
@@ -156,7 +156,7 @@ class LinearModel(Model):
             meas : CasADi SX function depending on ``_x``, ``_u``, ``_tvp``, ``_p``.
         """
         # Check if expression is linear
-        if castools.evalf(castools.jacobian(meas, castools.vertcat(self.x, self.u))).is_constant():
+        if castools.jacobian(meas, castools.vertcat(self.x, self.u)).is_constant():
             super(LinearModel, self).set_meas(name, meas, meas_noise=True)
         else:
             raise ValueError("Measurement function is not linear.")
-- 
2.43.0


From 5e9f214582c582d95c06630c496a5bb3395abf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/80] fix: keep C in linearize when the measurement has a
 feed-through term

---
 do_mpc/model/_linearize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/do_mpc/model/_linearize.py b/do_mpc/model/_linearize.py
index 00e25ce..027aa82 100644
--- a/do_mpc/model/_linearize.py
+++ b/do_mpc/model/_linearize.py
@@ -91,9 +91,8 @@ def linearize(model:Model,
     n_u = model.n_u
     
     # Check for trivial measurement equation
-    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():
+    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == np.zeros((n_x,n_u))).all():
         C = None
-    if D.shape == (n_x,n_u) and (D == np.zeros((n_x,n_u))).all():
         D = None
     
     # Setup linearized model
-- 
2.43.0


From 4cbf08ec3bc8499397ba83ff74742a8bcadd2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/80] fix: keep the feed-through matrix when discretizing a
 LinearModel

---
 do_mpc/model/_linearmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index b910b15..a7799de 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -275,7 +275,7 @@ class LinearModel(Model):
         self._transfer_variables(self, discreteModel)
 
         # Setup linearized model
-        discreteModel.setup(A,B,C)
+        discreteModel.setup(A,B,C,D)
         
         return discreteModel 
  
-- 
2.43.0


From d5d624dcf6b9c70959be35bf8070ba06fb744591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 08/80] fix: check the rank of I-A when computing the steady
 state

---
 do_mpc/model/_linearmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index a7799de..e79c90c 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -307,13 +307,13 @@ class LinearModel(Model):
         I = np.identity(np.shape(self.sys_A)[0])
         
         #Calculation of steady state
-        if np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) == self.x.shape[0]:
+        if np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) == self.x.shape[0]:
             assert np.all(uss) != None and isinstance(uss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.xss = np.linalg.inv(I-self.sys_A)@self.sys_B@uss
             self.uss = uss
             return self.xss
-        elif np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) != self.x.shape[0]:
-            raise ValueError("State matrix does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
+        elif np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) != self.x.shape[0]:
+            raise ValueError("The matrix I-A does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
         elif np.all(uss) == None and np.shape(self.sys_B)[0] != np.shape(self.sys_B)[1]:
             assert np.all(xss) != None and isinstance(xss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss
-- 
2.43.0


From f0f9306ccc891d25d4964947d8ea4cc143ed9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 09/80] fix: convert vector-valued inputs in dae2odeconversion

---
 do_mpc/model/_dae2odeconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 29e2770..a320788 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -95,8 +95,11 @@ def dae2odeconversion(model:Model)->Model:
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
+    u_count = 0
     for j in range(np.size(model.u.keys())-1):
-        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q',j])
+        n_uj = model.u[model.u.keys()[j+1]].size()[0]
+        daeModel.set_rhs(model.u.keys()[j+1],q[u_count:u_count+n_uj])
+        u_count += n_uj
     
     z_count = 0
     for k in range(np.size(model.z.keys())-1):
-- 
2.43.0


From 29093fb517a66b598e374731ca3f7acb783889f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 10/80] fix: match process noise by name in dae2odeconversion

---
 do_mpc/model/_dae2odeconversion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index a320788..89bc790 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -92,7 +92,11 @@ def dae2odeconversion(model:Model)->Model:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
-    rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
+    # The order of the noise variables can differ between the two models.
+    rhs_mod = rhs
+    if model.n_w > 0:
+        w_new = daeModel.w[model.w.keys()[1:]]
+        rhs_mod = castools.substitute(rhs,model.w.cat,castools.vertcat(*w_new))
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
     u_count = 0
-- 
2.43.0


From 60ddc40167ca14ad71fd7ded27871f2e4fc096ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 11/80] fix: return the terminal bounds when querying
 MPC.terminal_bounds

---
 do_mpc/controller/_mpc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index ec19579..354539d 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -431,10 +431,9 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert bound_type in ('lower', 'upper'), err_msg.format(bound_type)
 
         if bound_type == 'lower':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='lb')
+            query = '_x_terminal_lb'
         elif bound_type == 'upper':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='ub')
-        # query results string e.g. _x_lb, _x_ub
+            query = '_x_terminal_ub'
 
         # Get the desired struct:
         var_struct = getattr(self, query)
-- 
2.43.0


From 6276f1f1636330dd015ae97fb8389fc3683b9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 12/80] fix: apply terminal bounds only if use_terminal_bounds
 is set

---
 do_mpc/controller/_mpc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 354539d..541427c 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1060,9 +1060,6 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             self.lb_opt_x['_z'] = self._z_lb.cat
             self.ub_opt_x['_z'] = self._z_ub.cat
 
-            # Terminal bounds
-            self.lb_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_lb.cat
-            self.ub_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Dont bound the initial state
             self.lb_opt_x['_x', 1:self._settings.n_horizon, :, -1] = self._x_lb.cat
@@ -1072,7 +1069,8 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             self.lb_opt_x['_z', :, :, 0] = self._z_lb.cat
             self.ub_opt_x['_z', :, : ,0] = self._z_ub.cat
 
-            # Terminal bounds
+        # Terminal bounds
+        if self._settings.use_terminal_bounds:
             self.lb_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_lb.cat
             self.ub_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_ub.cat
 
-- 
2.43.0


From c1a95afd6120c52555ab430e34c6f319e574564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 13/80] fix: changing the terminal bounds after setup takes
 effect and keeps the state bounds

---
 do_mpc/controller/_mpc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 541427c..5642380 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -466,9 +466,18 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         err_msg = 'Calling .bounds with {} is not valid. Possible keys are {}.'
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
+        # The default terminal bounds are the bounds of the states, which must not change here:
+        if var_struct is self._x_lb or var_struct is self._x_ub:
+            var_struct = self.model._x(castools.DM(var_struct.cat))
+            setattr(self, query, var_struct)
+
         # Set value on struct:
         var_struct[var_name] = val
 
+        # Update bounds of optimization variables, if the problem is already created:
+        if self.flags['prepare_nlp']:
+            self._update_bounds()
+
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
         
-- 
2.43.0


From f5ac04762d3f5f8e22c8aabca4836678b42bff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 14/80] fix: evaluate the terminal cost for every branch if
 n_robust equals n_horizon

---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 5642380..330f9a2 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1241,7 +1241,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # In the last step add the terminal cost too
                     if k == self._settings.n_horizon - 1:
-                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s, -1], opt_p['_tvp', k+1],
+                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, child_scenario[k][s][b], -1], opt_p['_tvp', k+1],
                                                          opt_p['_p', current_scenario])
 
                     # U regularization:
-- 
2.43.0


From fd65732ad8cce1debed003d23ec6b94377c330a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 15/80] fix: use the algebraic states of the respective branch
 in multi-stage MPC

---
 do_mpc/controller/_mpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 330f9a2..54df319 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1224,7 +1224,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     else:
                         # Ensure nonlinear constraints only on the beginning of the FE
                         nl_cons_k = self._nl_cons_fun(
-                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, 0],
+                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],
                             opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                         cons.append(nl_cons_k)
                         cons_lb.append(self._nl_cons_lb)
@@ -1235,7 +1235,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
@@ -1249,10 +1249,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1262,12 +1262,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
                     opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
-- 
2.43.0


From 59dbbcb8c9b7f3a71a40d8a9c44a4d44d8fe9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 16/80] fix: evaluate cost and auxiliary expressions of MPC
 with the algebraic states at the first point of the interval

---
 do_mpc/controller/_mpc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 54df319..f00f5ed 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1235,7 +1235,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
@@ -1249,10 +1249,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1262,12 +1262,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
                     opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
-- 
2.43.0


From 27bca02f3ff4e4bcefd13ce8973c0e748231b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 17/80] fix: pass the physical previous input to a user-defined
 rterm

---
 do_mpc/controller/_mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index f00f5ed..4130e88 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1248,10 +1248,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     # For user defined penalty term
                     if self.flags['rterm_fun'] == True:
                         if k==0:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
                                                      opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
                                                      opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
-- 
2.43.0


From 746fd9287f3923eb3046cb492619959559f8237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 18/80] fix: check nonlinear constraints of MPC at the
 collocation points of the respective interval

---
 do_mpc/controller/_mpc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 4130e88..73ab52b 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1212,11 +1212,16 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     cons_ub.append(np.zeros((self.model.n_x, 1)))
 
                     k_eps = min(k, n_eps-1)
-                    if self._settings.nl_cons_check_colloc_points:
+                    if self._settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
+                            # The interval starts at the node, its further points are stored with the child node.
+                            if i == 0:
+                                x_ksb = opt_x_unscaled['_x', k, s, -1]
+                            else:
+                                x_ksb = opt_x_unscaled['_x', k+1, child_scenario[k][s][b], i-1]
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, i],
+                                x_ksb, opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From 8ab9101bc9a302bb3282871670cfbeec074a5566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 19/80] fix: node indices of the scenarios for any robust
 horizon

---
 do_mpc/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 4a2dff7..29d422f 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -1014,8 +1014,6 @@ class Optimizer:
                 # For all uncertainty realizations
                 for b in range(n_branches[k]):
                     child_scenario[k][s][b] = scenario_counter
-                    structure_scenario[k][scenario_counter] = s
-                    structure_scenario[k+1][scenario_counter] = s
                     parent_scenario[k + 1][scenario_counter] = s
                     scenario_counter += 1
                 # Store the range of branches
@@ -1026,6 +1024,10 @@ class Optimizer:
                 else:
                     branch_offset[k][s] = s % n_branches[0]
 
+        # Node which each of the scenarios (leaf nodes) passes at each stage
+        for k in range(nk + 1):
+            structure_scenario[k] = np.arange(n_scenarios[-1]) // (n_scenarios[-1] // n_scenarios[k])
+
         self.scenario_tree = {
             'structure_scenario': structure_scenario,
             'n_branches': n_branches,
-- 
2.43.0


From 1d76da1ed6dfadaa7eee505024987bf865cd4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 20/80] fix: prediction of vector-valued time-varying
 parameters

---
 do_mpc/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index dc49ea5..16f0f7b 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -346,7 +346,8 @@ class MPCData(Data):
                 f_ind = self.prediction_queries['f_ind'][i]
             else:
                 f_ind = self.opt_p.f[(ind[0], slice(None))+ind[1:]]
-                f_ind = np.array(f_ind).reshape(1, -1, 1)
+                # Elements of the variable, horizon, scenarios (single, as tvp do not differ)
+                f_ind = np.array(f_ind, dtype='int32').reshape(structure_scenario.shape[0], -1).T[:, :, np.newaxis]
                 #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
-- 
2.43.0


From 5b8ce74651fe83a391a089964f2f3e19f5e68306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 21/80] fix: predictions of algebraic states belong to the
 stage and the scenario

---
 do_mpc/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 16f0f7b..c281ffe 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -312,11 +312,13 @@ class MPCData(Data):
                 i = self.prediction_queries['ind'].index(ind)
                 f_ind = self.prediction_queries['f_ind'][i]
             else:
-                f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), -1)+ind[1:]]
+                # - States are stored with the node as last point, algebraic states start with the first point of the interval
+                i_coll = -1 if ind[0] == '_x' else 0
+                f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), i_coll)+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # sort pred such that each column belongs to one scenario
-                # - By indexing structure_scenario until f_ind.shape[0] we cover the case of _x and _z at the same time
-                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:f_ind.shape[0],:].T].T
+                # - _x has one more element than _z, whose elements are stored with the index of the child node
+                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[-f_ind.shape[0]:,:].T].T
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
                 self.prediction_queries['f_ind'].append(f_ind)
-- 
2.43.0


From 440747e956c65e3e0e59838be247776ed43403cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 22/80] fix: MHE for models with matrix-valued parameters

---
 do_mpc/estimator/_mhe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 8b77e9a..bdf6c19 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -176,9 +176,9 @@ class MHE(Optimizer, Estimator):
         _p_subs = []
         for name in _p.keys():
             if name in self._p_est.keys():
-                _p_subs.append(self._p_est[name])
+                _p_subs.append(castools.vec(self._p_est[name]))
             elif name in self._p_set.keys():
-                _p_subs.append(self._p_set[name])
+                _p_subs.append(castools.vec(self._p_set[name]))
 
 
 
@@ -571,8 +571,8 @@ class MHE(Optimizer, Estimator):
         #arrival_cost = substitute(arrival_cost, self._p_est, vertcat(*[self.model._p[name] for name in self._p_est.keys()]))
         #arrival_cost = substitute(arrival_cost, self._p_set, vertcat(*[self.model._p[name] for name in self._p_set.keys()]))
 
-        stage_cost = castools.substitute(stage_cost, self._p_est, castools.vertcat(*[self.model._p[name] for name in self._p_est.keys()]).reshape((-1,1)))
-        stage_cost = castools.substitute(stage_cost, self._p_set, castools.vertcat(*[self.model._p[name] for name in self._p_set.keys()]).reshape((-1,1)))
+        stage_cost = castools.substitute(stage_cost, self._p_est, castools.vertcat(*[castools.vec(self.model._p[name]) for name in self._p_est.keys()]).reshape((-1,1)))
+        stage_cost = castools.substitute(stage_cost, self._p_set, castools.vertcat(*[castools.vec(self.model._p[name]) for name in self._p_set.keys()]).reshape((-1,1)))
 
 
         stage_cost_input = self._w, self._v, self.model._tvp, self.model._p
-- 
2.43.0


From 1472f09021d5e38077f867eea15bb9284eb813fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 23/80] fix: MHE evaluates measurements, costs and constraints
 with physical parameter values

---
 do_mpc/estimator/_mhe.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index bdf6c19..2718785 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1112,6 +1112,8 @@ class MHE(Optimizer, Estimator):
 
         # Get concatenated parameters vector containing the estimated and fixed parameters (scaled)
         _p = self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling)
+        # The same vector in physical units:
+        _p_unscaled = self._p_cat_fun(opt_x_unscaled['_p_est'], opt_p['_p_set'])
 
         # For all control intervals
         for k in range(self.settings.n_horizon):
@@ -1124,7 +1126,7 @@ class MHE(Optimizer, Estimator):
 
             # Compute current measurement
             yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                opt_p['_tvp', k], _p, opt_x_unscaled['_v', k])
+                opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
             cons.append(g_ksb)
@@ -1147,7 +1149,7 @@ class MHE(Optimizer, Estimator):
                 for i in range(n_total_coll_points):
                     nl_cons_k = self._nl_cons_fun(
                         opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
-                        opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                        opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
                     cons_ub.append(self._nl_cons_ub)
@@ -1155,7 +1157,7 @@ class MHE(Optimizer, Estimator):
                 # Ensure nonlinear constraints only on the beginning of the FE
                 nl_cons_k = self._nl_cons_fun(
                     opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                    opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                    opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                 cons.append(nl_cons_k)
                 cons_lb.append(self._nl_cons_lb)
                 cons_ub.append(self._nl_cons_ub)
@@ -1165,7 +1167,7 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(self._nl_cons_ub)
 
             obj += self.stage_cost_fun(
-                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p
+                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled
             )
 
             # Add slack variables to the cost
@@ -1174,7 +1176,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From efaa4b8adfc2094376bd5296bf468a7bb124cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 24/80] fix: MHE measurement and auxiliary equations use the
 algebraic states of the same instant as the states

---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 2718785..30ae8ff 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1125,7 +1125,7 @@ class MHE(Optimizer, Estimator):
                                    _p, opt_x['_w', k])
 
             # Compute current measurement
-            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
+            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],
                 opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
@@ -1176,7 +1176,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From 433688c2dd56dee263b4e83e4f1cf4f1ef498b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 25/80] fix: MHE bounds hold at the first and last node of the
 window without collocation point checks

---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 30ae8ff..78398bd 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1005,8 +1005,8 @@ class MHE(Optimizer, Estimator):
             self.ub_opt_x['_z'] = self._z_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Bounds for the states on all discretize values along the horizon
-            self.lb_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_lb.cat
-            self.ub_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_ub.cat
+            self.lb_opt_x['_x', :, -1] = self._x_lb.cat
+            self.ub_opt_x['_x', :, -1] = self._x_ub.cat
 
             # Bounds for the algebraic states along the horizon
             self.lb_opt_x['_z', :, 0] = self._z_lb.cat
-- 
2.43.0


From c3875df8aaa9448feadcb6c12765c576a895102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 26/80] fix: MHE nonlinear constraints at all collocation
 points

---
 do_mpc/estimator/_mhe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 78398bd..9f8e078 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1144,11 +1144,13 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(np.zeros((self.model.n_y, 1)))
 
             k_eps = min(k, n_eps-1)
-            if self.settings.nl_cons_check_colloc_points:
+            if self.settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                 # Ensure nonlinear constraints on all collocation points
                 for i in range(n_total_coll_points):
+                    # The interval starts at the node, its further points are stored with the next node.
+                    x_ki = opt_x_unscaled['_x', k, -1] if i == 0 else opt_x_unscaled['_x', k+1, i-1]
                     nl_cons_k = self._nl_cons_fun(
-                        opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
+                        x_ki, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
                         opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From 6638795dee73ce46178a5147e66a6b5bf883fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 27/80] fix: MHE nonlinear constraints may depend on model
 parameters

---
 do_mpc/estimator/_mhe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 9f8e078..2c8f347 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1030,6 +1030,10 @@ class MHE(Optimizer, Estimator):
         self.settings.check_for_mandatory_settings()
         nl_cons_input = self.model['x', 'u', 'z', 'tvp']
         nl_cons_input += [self._p_est, self._p_set]
+        # The constraints are formulated with the parameters of the model, which are either estimated or set.
+        _p = self._p_cat_fun(self._p_est, self._p_set)
+        for nl_cons_i in self.nl_cons_list:
+            nl_cons_i['expr'] = castools.substitute(nl_cons_i['expr'], self.model._p, _p.reshape((-1,1)))
         self._setup_nl_cons(nl_cons_input)
         self._check_validity()
 
-- 
2.43.0


From 8b933986a5ae843dcbe127484964e53e72212c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 28/80] fix: MHE records the time-varying parameters of the
 current instant

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 2c8f347..63ab584 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -961,7 +961,7 @@ class MHE(Optimizer, Estimator):
         self.data.update(_u = u0)
         self.data.update(_z = z0)
         self.data.update(_p = p0)
-        self.data.update(_tvp = tvp0['_tvp', -1])
+        self.data.update(_tvp = self.opt_p_num['_tvp', -1])
         self.data.update(_time = t0)
         self.data.update(_aux = aux0)
 
-- 
2.43.0


From 559b7ee044fd227d7450427adab8663a092240e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 29/80] fix: LQR default terminal weight when the horizon is
 set after the objective

---
 do_mpc/controller/_lqr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 44052b9..1bff2e8 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -478,6 +478,11 @@ class LQR(IteratedVariables):
         """
         self.settings.check_for_mandatory_settings()
 
+        # The horizon may have been set after the objective.
+        if self.settings.n_horizon != None and self.P is None:
+            self.P = self.Q
+            warnings.warn('P is not given explicitly. Q is chosen as P for calculating finite discrete gain')
+
         if self.mode in ['standard',None]:
             self.K = self.discrete_gain(self.model._A,self.model._B)
         elif self.mode == 'inputRatePenalization':
-- 
2.43.0


From 943bac0f0c1acebdb9716c9bcd7aa3864e254315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 30/80] fix: LQR with input rate penalization accepts casadi
 states

---
 do_mpc/controller/_lqr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 1bff2e8..cd353f5 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -281,10 +281,12 @@ class LQR(IteratedVariables):
         assert self.flags['setup'] == True, 'LQR is not setup. run setup() function.'
         
         # Check input type.
-        if isinstance(x0, (np.ndarray, castools.DM)):
+        if isinstance(x0, np.ndarray):
             pass
+        elif isinstance(x0, castools.DM):
+            x0 = x0.full()
         elif isinstance(x0, castools.structure3.DMStruct):
-            x0 = x0.cat
+            x0 = x0.cat.full()
         else:
             raise Exception('Invalid type {} for x0. Must be {}'.format(type(x0), (np.ndarray, castools.DM, castools.structure3.DMStruct)))
 
-- 
2.43.0


From c6645712b799f98e09c33008141a67dbd7711dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 31/80] fix: LQR set-points can be changed repeatedly and
 partially with input rate penalization

---
 do_mpc/controller/_lqr.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index cd353f5..51d3d8d 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -303,7 +303,8 @@ class LQR(IteratedVariables):
         #Calculate u in input rate penalization mode
         elif self.mode == "inputRatePenalization":
             x0_aug = self._retreive_augmented_states(x0, u_prev)
-            u0 = self.K@(x0_aug-self.xss)+self.uss
+            xss_aug = self._retreive_augmented_states(self.xss, self.uss)
+            u0 = self.K@(x0_aug-xss_aug)
             u0 = u0 + u_prev
 
 
@@ -445,9 +446,14 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
+        if isinstance(xss, np.ndarray):
+            assert xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),xss.shape)
+        if isinstance(uss, np.ndarray):
+            assert uss.shape == (self.model.n_u,1), 'uss must be of shape {}. You have {}'.format((self.model.n_u,1),uss.shape)
+
         # Set or reset xss. Don't change xss if it already exists and uss is not passed
         if isinstance(xss, np.ndarray):
-            self.xss = xss
+            self.xss = xss.copy()
         elif hasattr(self,'xss'):
             pass
         else:
@@ -455,20 +461,11 @@ class LQR(IteratedVariables):
 
         # Set or reset uss. Don't change uss if it already exists and uss is not passed
         if isinstance(uss, np.ndarray): 
-            self.uss = uss
+            self.uss = uss.copy()
         elif hasattr(self,'uss'):
             pass
         else:
             self.uss = np.zeros((self.model.n_u,1))
-        
-        if self.mode == 'inputRatePenalization':
-            self.xss = np.block([[self.xss],[self.uss]])
-            self.uss = np.zeros((self.model.n_u,1))
-            assert self.xss.shape == (self.model.n_x+self.model.n_u,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x+self.model.n_u,1),self.xss.shape)
-        
-        if self.mode == 'standard':
-            assert self.xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),self.xss.shape)
-        assert self.uss.shape == (self.model.n_u,1), 'uss must be of shape {}. You have {}'.format((self.model.n_u,1),self.uss.shape)
     
     def setup(self)->None:
         """Prepares :py:class:`LQR` for execution.
-- 
2.43.0


From 80d701365a022c1e94146d6317968f2177de6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 32/80] fix: rejected updates leave the data record unchanged

---
 do_mpc/data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index c281ffe..5163356 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -203,6 +203,9 @@ class Data:
         """
         for key, value in kwargs.items():
             assert key in self.data_fields.keys(), 'Cannot update non existing key {} in data object.'.format(key)
+
+        results = {}
+        for key, value in kwargs.items():
             if type(value) == castools.structure3.DMStruct:
                 value = value.cat
             if type(value) == castools.DM:
@@ -214,7 +217,9 @@ class Data:
             arr = getattr(self, key)
             # Append current value to results array:
             updated = np.append(arr, value.reshape(1,-1), axis=0)
-            # Update results array:
+            results[key] = updated
+        # Update results arrays (only if all values are valid):
+        for key, updated in results.items():
             setattr(self, key, updated)
 
     def export(self)->dict:
-- 
2.43.0


From c042fbba6b20e8665e1478456469861838cae2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 33/80] fix: cached data queries are independent of lists the
 caller goes on using

---
 do_mpc/data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 5163356..eedcbca 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -27,6 +27,7 @@ Storage and handling of data.
 import numpy as np
 import casadi.tools as castools
 import pdb
+import copy
 import pickle
 import do_mpc
 import os
@@ -146,7 +147,7 @@ class Data:
             else:
                 powerind = ind[1:]
                 f_ind = self.model[data_field].f[powerind]
-                self.result_queries['ind'].append(ind)
+                self.result_queries['ind'].append(copy.deepcopy(ind))
                 self.result_queries['f_ind'].append(f_ind)
             out = getattr(self, data_field)[:, f_ind]
 
@@ -325,7 +326,7 @@ class MPCData(Data):
                 # - _x has one more element than _z, whose elements are stored with the index of the child node
                 f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[-f_ind.shape[0]:,:].T].T
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
+                self.prediction_queries['ind'].append(copy.deepcopy(ind))
                 self.prediction_queries['f_ind'].append(f_ind)
             out = _opt_x_num[t_ind,f_ind]
 
@@ -343,7 +344,7 @@ class MPCData(Data):
                     f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T
 
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
+                self.prediction_queries['ind'].append(copy.deepcopy(ind))
                 self.prediction_queries['f_ind'].append(f_ind)
             out = _opt_x_num[t_ind,f_ind]
 
@@ -357,7 +358,7 @@ class MPCData(Data):
                 f_ind = np.array(f_ind, dtype='int32').reshape(structure_scenario.shape[0], -1).T[:, :, np.newaxis]
                 #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
+                self.prediction_queries['ind'].append(copy.deepcopy(ind))
                 self.prediction_queries['f_ind'].append(f_ind)
             out = _opt_p_num[t_ind,f_ind]
 
@@ -371,7 +372,7 @@ class MPCData(Data):
                 # sort pred such that each column belongs to one scenario
                 f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
+                self.prediction_queries['ind'].append(copy.deepcopy(ind))
                 self.prediction_queries['f_ind'].append(f_ind)
             out = _opt_aux_num[t_ind,f_ind]
         else:
-- 
2.43.0


From 3dd120d136f89bb4895671ab749cd498cd1b5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 34/80] fix: save_results with a directory without trailing
 slash

---
 do_mpc/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index eedcbca..d835b96 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -435,12 +435,12 @@ def save_results(save_list:list,
     if overwrite==False:
         ind = 1
         ext_result_name = result_name
-        while os.path.isfile(result_path+ext_result_name+'.pkl'):
+        while os.path.isfile(os.path.join(result_path, ext_result_name+'.pkl')):
             ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
             ind += 1
         result_name = ext_result_name
 
-    with open(result_path+result_name+'.pkl', 'wb') as f:
+    with open(os.path.join(result_path, result_name+'.pkl'), 'wb') as f:
         pickle.dump(results, f)
 
 def load_results(file_name:str)->Dict:
-- 
2.43.0


From caf9fc0c9ed746ef3a5953f71df5ef42fd80e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 35/80] fix: failing save_results does not destroy the existing
 file

---
 do_mpc/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index d835b96..4ea590b 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -440,8 +440,11 @@ def save_results(save_list:list,
             ind += 1
         result_name = ext_result_name
 
+    # Results which cannot be pickled must not destroy an existing file.
+    results = pickle.dumps(results)
+
     with open(os.path.join(result_path, result_name+'.pkl'), 'wb') as f:
-        pickle.dump(results, f)
+        f.write(results)
 
 def load_results(file_name:str)->Dict:
     """ Simple wrapper to open and unpickle a file.
-- 
2.43.0


From df7c8d4aecd61f148bc8c9762ed601e776e3aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 36/80] fix: sampling data directories without trailing slash

---
 do_mpc/sampling/_datahandler.py     | 4 ++--
 do_mpc/sampling/_sampler.py         | 8 ++++----
 do_mpc/sampling/_samplingplanner.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 8ddb6e6..453c709 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -246,9 +246,9 @@ class DataHandler:
         name = '{sample_name}_{id}'.format(sample_name=self.sample_name, id=sample_id)
 
         if self.save_format == 'pickle':
-            load_name = self.data_dir + name + '.pkl'
+            load_name = os.path.join(self.data_dir, name + '.pkl')
         elif self.save_format == 'mat':
-            load_name = self.data_dir + name+'.mat'
+            load_name = os.path.join(self.data_dir, name + '.mat')
 
         try:
             if self.save_format == 'pickle':
diff --git a/do_mpc/sampling/_sampler.py b/do_mpc/sampling/_sampler.py
index 6f06afb..cf49eaf 100644
--- a/do_mpc/sampling/_sampler.py
+++ b/do_mpc/sampling/_sampler.py
@@ -188,11 +188,11 @@ class Sampler:
         """Private method. Saves the result for a single sample in the defined format.
         Considers the ``overwrite`` parameter to check if existing results should be overwritten.
         """
-        if not os.path.isfile(self.data_dir + save_name) or self.overwrite:
+        if not os.path.isfile(os.path.join(self.data_dir, save_name)) or self.overwrite:
             if self.save_format == 'pickle':
-                save_pickle(self.data_dir + save_name, result)
+                save_pickle(os.path.join(self.data_dir, save_name), result)
             elif self.save_format == 'mat':
-                sio.savemat(self.data_dir + save_name, {'res': result})
+                sio.savemat(os.path.join(self.data_dir, save_name), {'res': result})
 
 
     def sample_idx(self, idx:int)->None:
@@ -215,7 +215,7 @@ class Sampler:
 
         # Create and safe result if sample result does not exist:
         save_name = self._save_name(sample_id)
-        if not os.path.isfile(self.data_dir + save_name) or self.overwrite:
+        if not os.path.isfile(os.path.join(self.data_dir, save_name)) or self.overwrite:
             # Call sample function to create sample (pass sample information)
             result = self.sample_function(**sample_i)
             # Save  true results:
diff --git a/do_mpc/sampling/_samplingplanner.py b/do_mpc/sampling/_samplingplanner.py
index 0369759..8ed8cbc 100644
--- a/do_mpc/sampling/_samplingplanner.py
+++ b/do_mpc/sampling/_samplingplanner.py
@@ -269,12 +269,12 @@ class SamplingPlanner:
         # Strip file extension from name:
         sampling_plan_name = os.path.splitext(sampling_plan_name)[0]
 
-        full_name = self.data_dir + sampling_plan_name + '.pkl'
+        full_name = os.path.join(self.data_dir, sampling_plan_name + '.pkl')
         if not os.path.isfile(full_name) or self.overwrite:
             save_pickle(full_name, self.sampling_plan)
         else:
             for i in range(1,10000):
-                full_name = self.data_dir + sampling_plan_name + str(i) + '.pkl'
+                full_name = os.path.join(self.data_dir, sampling_plan_name + str(i) + '.pkl')
                 if not os.path.isfile(full_name):
                     save_pickle(full_name, self.sampling_plan)
                     break
\ No newline at end of file
-- 
2.43.0


From f00b9dae5f7c355d3e713f6af016d2dd8ffb2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 37/80] fix: save_pickle only strips the file extension

---
 do_mpc/tools/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 32751d3..539fcd9 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -34,7 +34,9 @@ from ._timer import Timer
 
 
 def save_pickle(filename, data):
-    filename = filename.replace('.pkl','')
+    # Only the extension is removed (not the same characters elsewhere in the path)
+    if filename.endswith('.pkl'):
+        filename = filename[:-len('.pkl')]
     with open(filename + '.pkl', 'wb') as f:
         pickle.dump(data, f)
 
-- 
2.43.0


From 03c03841c09c2ceaa4b39e808fbb4d1c156c5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 38/80] fix: DataHandler can be indexed with a list or tuple

---
 do_mpc/sampling/_datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 453c709..3b78557 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -112,8 +112,10 @@ class DataHandler:
         try:
             if isinstance(ind, int):
                 samples = [self.sampling_plan[ind]]
-            elif isinstance(ind, (tuple, slice, list)):
+            elif isinstance(ind, slice):
                 samples = self.sampling_plan[ind]
+            elif isinstance(ind, (tuple, list)):
+                samples = [self.sampling_plan[ind_i] for ind_i in ind]
             else:
                 raise Exception('ind must be of type int, tuple, slice or list. You have {}'.format(type(ind)))
         except IndexError:
-- 
2.43.0


From dfd52dee9a494f7809fddf36d0f8862bc5117705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 39/80] fix: DataHandler filter functions may use local
 variables

---
 do_mpc/sampling/_datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 3b78557..ca01446 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -220,14 +220,14 @@ class DataHandler:
             if input_filter is None:
                 return True
             else:
-                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames})
+                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(input_filter).parameters})
 
         # Wrapper to ensure arbitrary arguments are accepted
         def wrap_fun_out(**kwargs):
             if output_filter is None:
                 return True
             else:
-                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames})
+                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(output_filter).parameters})
 
         # For each sample:
         for sample in self.sampling_plan:
-- 
2.43.0


From 22a0d7c7423e20b54d4079a1141877706d687452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 40/80] fix: DataHandler finds samples which were created after
 the first query

---
 do_mpc/sampling/_datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index ca01446..f180999 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -143,8 +143,10 @@ class DataHandler:
             result = self.pre_loaded_data['data'][ind]
         else:
             result = self._load(sample['id'])
-            self.pre_loaded_data['id'].append(sample['id'])
-            self.pre_loaded_data['data'].append(result)
+            # Missing samples may still be created.
+            if result is not None:
+                self.pre_loaded_data['id'].append(sample['id'])
+                self.pre_loaded_data['data'].append(result)
 
         return result
 
-- 
2.43.0


From 6b3d9c8363229a346f91a3933e3bf7c407246b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 41/80] fix: DataHandler does not return results of a previous
 directory or sample name

---
 do_mpc/sampling/_datahandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index f180999..2bf6f60 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -104,6 +104,8 @@ class DataHandler:
     @data_dir.setter
     def data_dir(self, val):
         self._data_dir = val
+        # Results loaded from another directory are not valid anymore.
+        self.pre_loaded_data = {'id':[], 'data':[]}
 
     def __getitem__(self, ind):
         """ Index results from the :py:class:`DataHandler`. Pass an index or a slice operator.
@@ -286,6 +288,8 @@ class DataHandler:
                 print('Warning: Key {} does not exist for DataHandler.'.format(key))
             else:
                 setattr(self, key, value)
+                # Results loaded with other parameters are not valid anymore.
+                self.pre_loaded_data = {'id':[], 'data':[]}
 
 
     def set_post_processing(self, name:str, post_processing_function:Union[types.FunctionType,types.BuiltinFunctionType])->None:
-- 
2.43.0


From cdbf6221692ec55111f90ffcf9db69ad8905f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 42/80] fix: interrupted saving of a sample does not leave an
 incomplete sample file

---
 do_mpc/sampling/_sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_sampler.py b/do_mpc/sampling/_sampler.py
index cf49eaf..7788574 100644
--- a/do_mpc/sampling/_sampler.py
+++ b/do_mpc/sampling/_sampler.py
@@ -189,10 +189,13 @@ class Sampler:
         Considers the ``overwrite`` parameter to check if existing results should be overwritten.
         """
         if not os.path.isfile(os.path.join(self.data_dir, save_name)) or self.overwrite:
+            # Write to a temporary file first: An interrupted save must not look like a finished sample.
+            tmp_name = os.path.join(self.data_dir, 'tmp_' + save_name)
             if self.save_format == 'pickle':
-                save_pickle(os.path.join(self.data_dir, save_name), result)
+                save_pickle(tmp_name, result)
             elif self.save_format == 'mat':
-                sio.savemat(os.path.join(self.data_dir, save_name), {'res': result})
+                sio.savemat(tmp_name, {'res': result})
+            os.replace(tmp_name, os.path.join(self.data_dir, save_name))
 
 
     def sample_idx(self, idx:int)->None:
-- 
2.43.0


From 074e17153e71e289ab4258fd59f5af97968f9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 43/80] fix: NLPDifferentiator setting set_lam_zero

---
 do_mpc/differentiator/_nlpdifferentiator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 033d427..43d8088 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -417,13 +417,14 @@ class NLPDifferentiator:
         where_cons_active = np.concatenate((where_g_active,where_x_active+self.n_g))
         where_cons_inactive = np.concatenate((where_g_inactive,where_x_inactive+self.n_g))
 
-        # set lagrange multipliers of inactive constraints to zero
-        if self.settings.set_lam_zero:
-            lam_num[where_cons_inactive] = 0
-        
         # stack primal and dual solution
         x_num = nlp_sol["x"]
         lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
+
+        # set lagrange multipliers of inactive constraints to zero
+        if self.settings.set_lam_zero:
+            lam_num[where_cons_inactive] = 0
+
         z_num = ca.vertcat(x_num,lam_num)
 
         return z_num, where_cons_active        
-- 
2.43.0


From d51f7f03b6f152d5f799fd80f6bdbf6bc05e4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 44/80] fix: NLPDifferentiator with scipy solver and a single
 parameter

---
 do_mpc/differentiator/_nlpdifferentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 43d8088..ed1f891 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -484,7 +484,7 @@ class NLPDifferentiator:
         try:
             if lin_solver == 'scipy':
                 logging.info("Solving linear system with Scipy.")
-                param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.tocsc())
+                param_sens = sp_sparse.linalg.splu(A_num.tocsc()).solve(-B_num.full())
 
             elif lin_solver == 'casadi':
                 logging.info("Solving linear system with Casadi.")
-- 
2.43.0


From 6f7c50e030c3eb3c18735e9796b425b50195ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 45/80] fix: NLPDifferentiator does not require nonzero
 multipliers of equality constraints

---
 do_mpc/differentiator/_nlpdifferentiator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index ed1f891..082595e 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -637,8 +637,12 @@ class NLPDifferentiator:
         Checks if the strict complementarity is satisfied.
         """
 
-        # lagrange multipliers for active set
-        lam_num = lam_num[where_cons_active]
+        # lagrange multipliers for active set (equality constraints may have arbitrary multipliers)
+        is_ineq = np.concatenate((
+            np.array(self.nlp_bounds["lbg"] != self.nlp_bounds["ubg"]).flatten(),
+            np.array(self.nlp_bounds["lbx"] != self.nlp_bounds["ubx"]).flatten(),
+        )).astype(bool)
+        lam_num = lam_num[where_cons_active[is_ineq[where_cons_active]]]
         # check if all absolute values of lagrange multipliers are strictly greater than active set tolerance
         if np.all(np.abs(lam_num) >= self.settings.active_set_tol):
             logging.info("Strict complementarity satisfied.")
-- 
2.43.0


From fea1c2817cb7942b7215163369167cffd3790b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 46/80] fix: DoMPCDifferentiator considers bounds changed at
 runtime

---
 do_mpc/differentiator/_nlpdifferentiator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 082595e..5c38b81 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -815,6 +815,21 @@ class DoMPCDifferentiator(NLPDifferentiator):
 
         return nlp, nlp_bounds
 
+    def _update_nlp_bounds(self):
+        """
+        Adopts the current bounds of the optimizer, which may have changed since the differentiator was created.
+        """
+        _, nlp_bounds = self._get_do_mpc_nlp()
+
+        if self.status.reduced_nlp:
+            self.nlp_bounds_unreduced = nlp_bounds
+            det_opt_x_idx = self.det_sym_idx_dict["opt_x"]
+            nlp_bounds = nlp_bounds.copy()
+            nlp_bounds["lbx"] = nlp_bounds["lbx"][det_opt_x_idx]
+            nlp_bounds["ubx"] = nlp_bounds["ubx"][det_opt_x_idx]
+
+        self.nlp_bounds = nlp_bounds
+
     def _get_do_mpc_nlp_sol(self):
         """
         Warning:
@@ -852,6 +867,7 @@ class DoMPCDifferentiator(NLPDifferentiator):
         The current optimal solution and the corresponding parameters are read from the ``do_mpc`` object.  
         """
 
+        self._update_nlp_bounds()
         nlp_sol = self._get_do_mpc_nlp_sol()
         p_num = self._get_p_num()
         dx_dp_num, dlam_dp_num = super().differentiate(nlp_sol, p_num)
-- 
2.43.0


From 8da1df91774b78f0c7a2073b45d8f7eacb17d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 47/80] fix: ONNX conversion considers alpha of Elu

---
 do_mpc/sysid/_onnxconversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 235e748..743b0a3 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -326,7 +326,9 @@ class ONNXOperations:
         return casadi.fmax(0,x)
 
     def Elu(self,x, attribute = None):
-        return casadi.fmax(0,x) + casadi.fmin(0,casadi.exp(x)-1)
+        attr_dict = {k.name: k.f for k in attribute or ()}
+        alpha = attr_dict.get('alpha', 1)
+        return casadi.fmax(0,x) + alpha*casadi.fmin(0,casadi.exp(x)-1)
 
     def MatMul(self,*args, attribute = None):
         return casadi.mtimes(*args)
-- 
2.43.0


From bfc1bcba93705505946d1a866896ede6624f879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 48/80] fix: ONNX conversion broadcasts vectors along rows

---
 do_mpc/sysid/_onnxconversion.py | 36 ++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 743b0a3..a18ff05 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -337,17 +337,46 @@ class ONNXOperations:
         """Addition of two or more tensors.
         See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Operators.md#add>`_ for more details.
         """
+        args = self._broadcast(*args)
         out = 0
         for arg in args:
-            out += arg
+            out = out + arg
         return out
 
     def Mul(self,*args, attribute = None):
+        args = self._broadcast(*args)
         return args[0]*args[1]
 
     def Sub(self, *args, attribute = None):
+        args = self._broadcast(*args)
         return args[0] - args[1]
 
+    def _broadcast(self, *args):
+        """Multidirectional broadcasting of matrices and vectors.
+        See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Broadcasting.md>`_ for more details.
+        CasADi has no one-dimensional arrays and does not broadcast rows.
+        """
+        args = [arg if isinstance(arg, (casadi.SX, casadi.MX, casadi.DM)) else np.asarray(arg) for arg in args]
+        if all(isinstance(arg, np.ndarray) for arg in args):
+            return args
+
+        shapes = [arg.shape for arg in args if len(arg.shape) == 2]
+        args_2d = []
+        for arg in args:
+            if len(arg.shape) == 1:
+                # One-dimensional arrays are rows, unless the other arguments are vectors (columns in CasADi) of the same length
+                is_col = all(shape == (arg.shape[0], 1) for shape in shapes)
+                arg = arg.reshape(-1, 1) if is_col else arg.reshape(1, -1)
+            elif len(arg.shape) == 0:
+                arg = arg.reshape(1, 1)
+            args_2d.append(arg)
+
+        n_row = max(arg.shape[0] for arg in args_2d)
+        n_col = max(arg.shape[1] for arg in args_2d)
+        return [
+            casadi.repmat(arg, n_row if arg.shape[0] == 1 else 1, n_col if arg.shape[1] == 1 else 1) for arg in args_2d
+        ]
+
     def Gemm(self, *args, attribute = None):
         """General Matrix Multiplication.
         See `ONNX documentation  <https://github.com/onnx/onnx/blob/main/docs/Operators.md#gemm>`_ for more details.
@@ -374,10 +403,7 @@ class ONNXOperations:
         else:
             beta = 1
 
-        if C.ndim == 1:
-            C = C.reshape(1,-1)
-        
-        res = alpha*self.MatMul(A,B) + beta*C
+        res = self.Add(alpha*self.MatMul(A,B), beta*C)
 
         return res
 
-- 
2.43.0


From 534d7c231ccd12d3e3f065b490d5fdb8ef75ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 49/80] fix: ONNX conversion of Gemm without optional input

---
 do_mpc/sysid/_onnxconversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index a18ff05..99446a2 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -388,7 +388,7 @@ class ONNXOperations:
 
         A = args[0]
         B = args[1]
-        C = args[2]
+        C = args[2] if len(args) > 2 else np.zeros((1,1))
 
         if 'transA' in attr_dict.keys() and attr_dict['transA'] == 1:
             A = casadi.transpose(A)
-- 
2.43.0


From a7c50eb3a79632a286d9fc13dc0bc83815cb5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 50/80] fix: ONNX conversion of Concat with negative axis

---
 do_mpc/sysid/_onnxconversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 99446a2..baf86a1 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -411,7 +411,7 @@ class ONNXOperations:
         return  self.Add(*args)
 
     def Concat(self,*args, attribute = None):
-        if attribute[0].i in (0,2):
+        if attribute[0].i in (0,2,-2):
             return casadi.vertcat(*args)
         else:
             return casadi.horzcat(*args)
-- 
2.43.0


From 6bac7d66bacb061200cfd171d280c743c8b9aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 51/80] fix: ONNX conversion of Reshape keeps the order of the
 elements

---
 do_mpc/sysid/_onnxconversion.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index baf86a1..2f521cc 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -440,8 +440,17 @@ class ONNXOperations:
     def Reshape(self, *args, attribute = None):
         # TODO: Check if this is correct
         data = args[0]
-        shape = args[1]
-        return data.reshape(tuple(shape))
+        allowzero = any(k.name == 'allowzero' and k.i for k in attribute or ())
+        shape = [int(s) for s in args[1]]
+        shape = [data.shape[k] if s == 0 and not allowzero else s for k, s in enumerate(shape)]
+
+        if isinstance(data, np.ndarray):
+            return data.reshape(shape)
+
+        # CasADi stores elements column by column, ONNX row by row
+        if len(shape) != 2:
+            raise Exception("CasADi expressions can only be reshaped to two dimensions, not to {}".format(shape))
+        return casadi.reshape(casadi.transpose(data), shape[1], shape[0]).T
 
     def Shape(self, *args, attribute = None):
         return args[0].shape
-- 
2.43.0


From 7d289d662c74b84d983989280eae0d14b1dbb434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 52/80] fix: ONNX conversion of Slice reads attributes by name

---
 do_mpc/sysid/_onnxconversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 2f521cc..09cf797 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -426,14 +426,18 @@ class ONNXOperations:
 
     def Slice(self, *args, attribute = None):
         # TODO: Check if this is correct
-        ax = attribute[0].ints
-        ends = attribute[1].ints
-        starts = attribute[2].ints
+        attr_dict = {k.name: k.ints for k in attribute}
+        if len(args) > 1 or not {'starts', 'ends'}.issubset(attr_dict):
+            raise Exception("Slice is only supported with 'starts' and 'ends' as attributes.")
+        starts = attr_dict['starts']
+        ends = attr_dict['ends']
+        ax = attr_dict.get('axes', range(len(starts)))
 
         slices = [slice(None,None),]*2
 
         for ax_k, start_k, end_k in zip(ax, starts, ends):
-            slices[ax_k] = slice(start_k,end_k)
+            # Out of bound indices are clipped
+            slices[ax_k] = slice(*slice(start_k,end_k).indices(args[0].shape[ax_k]))
 
         return args[0][tuple(slices)]
 
-- 
2.43.0


From 444d8138ff9184588db4ea8384888d3fcccf5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 53/80] fix: ONNX conversion with numpy inputs of a single
 element

---
 do_mpc/sysid/_onnxconversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 09cf797..607a20f 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -267,6 +267,9 @@ class ONNXConversion:
             else:
                 raise Exception("Operation '{}' not implemented. Please consider the limited set of operations available to the tool.".format(n.op_type))
             
+            # CasADi returns plain numbers for numpy arrays with a single element
+            if type(out) is float:
+                out = np.full(ins[0].shape, out)
 
             all_values[n.output[0]] = out
             node_values[n.output[0]] = out
-- 
2.43.0


From 0df95b35cf7c62a119b323b6a0f6ccd8a3b30d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 54/80] fix: Structure with power indices of different length

---
 do_mpc/tools/_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/tools/_structure.py b/do_mpc/tools/_structure.py
index 0523cde..8cb17c8 100644
--- a/do_mpc/tools/_structure.py
+++ b/do_mpc/tools/_structure.py
@@ -179,7 +179,7 @@ class Structure:
             else:
                 # Regular case: Iter over all indices and check condition.
                 for i, ind_i in enumerate(_iter_index):
-                    if j>len(ind_i):
+                    if j>=len(ind_i):
                         None
                     elif ind_i[j] == ind_j:
                         _tmp_master.append(_iter_master[i])
-- 
2.43.0


From dddf1a343f27ce53b0bbb566e07064bb84b27b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 55/80] fix: indexed properties of several objects may be used
 at the same time

---
 do_mpc/tools/_indexedproperty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/tools/_indexedproperty.py b/do_mpc/tools/_indexedproperty.py
index 93542e6..2ee67a6 100644
--- a/do_mpc/tools/_indexedproperty.py
+++ b/do_mpc/tools/_indexedproperty.py
@@ -22,8 +22,10 @@ class IndexedProperty(object):
         self.__doc__ = doc
 
     def __get__(self, obj, objtype=None):
-        self.obj = obj
-        return self
+        # Return a copy, such that the property may be used for several instances of the parent class.
+        bound = type(self)(self.fget, self.fset, self.__doc__)
+        bound.obj = obj
+        return bound
 
     def __getitem__(self,ind):
         return self.fget(self.obj,ind)
-- 
2.43.0


From e6c652249f8853f51581a2b01f90ac2913c019f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 56/80] fix: default_plot accepts a list of algebraic states

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 2ade94d..8cfe142 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -382,7 +382,7 @@ def default_plot(data,
         # Pop default variable:
         dae_states_list.pop(0)
     else:
-        assert set(dae_states_list).issubset(data.model['_u'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
+        assert set(dae_states_list).issubset(data.model['_z'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
 
     if inputs_list is None:
         inputs_list = data.model['_u'].keys()
-- 
2.43.0


From 68573275b74640d09f67c51110cc0e8eb1e11e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 57/80] fix: animate results without predictions

---
 do_mpc/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 8cfe142..a452fa1 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -477,7 +477,8 @@ def animate(graphics:Graphics,
     def update(t_ind):
         print('Writing frame: {} of {}.'.format(t_ind, n_steps))
         graphics.plot_results(t_ind=t_ind)
-        graphics.plot_predictions(t_ind=t_ind)
+        if graphics.pred_lines.full:
+            graphics.plot_predictions(t_ind=t_ind)
         graphics.reset_axes()
         lines = graphics.result_lines.full+graphics.pred_lines.full
         return lines
-- 
2.43.0


From 20b6f5bb0661c43858f9b009093f5c8bfbace5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 58/80] fix: animate writes to the given path and does not
 overwrite existing files

---
 do_mpc/graphics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index a452fa1..e4c877e 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -488,11 +488,11 @@ def animate(graphics:Graphics,
     if writer==None:
         if 'mp4' in format:
             writer = FFMpegWriter(fps=fps, extra_args=['-vcodec', 'libx264'])
-            extension='mp4'
+            extension='.mp4'
 
         elif 'gif' in format:
             writer = ImageMagickWriter(fps=fps)
-            extension='gif'
+            extension='.gif'
         else:
             raise Exception('Invalid output format {}. Please choose mp4 or gif.'.format(format))
     else:
@@ -504,9 +504,9 @@ def animate(graphics:Graphics,
     if overwrite==False:
         ind = 1
         ext_export_name = export_name
-        while os.path.isfile(export_path+ext_export_name+'.pkl'):
+        while os.path.isfile(os.path.join(export_path, ext_export_name+extension)):
             ext_export_name = '{ind:03d}_{name}'.format(ind=ind, name=export_name)
             ind += 1
         export_name = ext_export_name
 
-    anim.save('{}{}.{}'.format(export_path, export_name, extension), writer=writer)
\ No newline at end of file
+    anim.save(os.path.join(export_path, export_name+extension), writer=writer)
\ No newline at end of file
-- 
2.43.0


From 5c3270fea963076aaeeae92e73e26f7e3a44ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 59/80] fix: OPC UA namespace contains variables with default
 in their name

---
 do_mpc/opcua/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 1d8df0c..15689c2 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -110,7 +110,7 @@ class RTBase:
         for var in variable_list:
             
             for key in model[var].labels():
-                if 'default' in key:
+                if key.startswith('[default,'):
                     continue
                 
                 node_list.append(NamespaceEntry(var, key))
-- 
2.43.0


From eccc84abe40e949dc889eff8048018b06ea50c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 60/80] fix: OPC UA server listens at its configured address
 and port

---
 do_mpc/opcua/_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/opcua/_server.py b/do_mpc/opcua/_server.py
index 35abaea..c901692 100644
--- a/do_mpc/opcua/_server.py
+++ b/do_mpc/opcua/_server.py
@@ -70,6 +70,8 @@ class RTServer:
         # Try to create the server
         try:
             self.opcua_server = opcua.Server()
+            # Listen at the given address (URL as for the client or IP address) and port
+            self.opcua_server.set_endpoint(self.address if '://' in self.address else 'opc.tcp://{}:{}'.format(self.address, self.port))
             print("A server named - {} - was created".format(self.name))
         except RuntimeError:
             self.created = False
-- 
2.43.0


From 9004904e3451dfa869b0a81c90c19b721ccee910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 61/80] fix: integration options are not shared by all
 simulators

---
 do_mpc/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 13426fc..c5c935b 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -31,7 +31,7 @@ import pdb
 import warnings
 import do_mpc
 from typing import Union,Callable
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Dict
 
 
@@ -61,6 +61,7 @@ class SimulatorSettings:
             raise ValueError("t_step must be set")
 
 
+@dataclass
 class ContinousSimulatorSettings(SimulatorSettings):
     """Settings for :py:class:`Simulator` for continous-time systems.
     
@@ -96,7 +97,7 @@ class ContinousSimulatorSettings(SimulatorSettings):
     integration_tool: str = 'cvodes'
     """Integration tool to be used. Options are 'cvodes' and 'idas'"""
 
-    integration_opts: Dict = {}
+    integration_opts: Dict = field(default_factory=dict)
     """Dictionary with options for the CasADi integrator call. Used tu update the opts dict in :py:func:`setup`.
     
     All options are listed `here <https://casadi.sourceforge.net/api/html/db/d3d/classcasadi_1_1Integrator.html>`_."""
-- 
2.43.0


From a969068f984a1f079423a84e146c072db5e34cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 62/80] fix: values of x0, u0 and z0 are copied

---
 do_mpc/controller/_lqr.py          |  2 +-
 do_mpc/model/_iteratedvariables.py | 13 ++++++++-----
 do_mpc/simulator.py                |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 51d3d8d..ad38947 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -316,7 +316,7 @@ class LQR(IteratedVariables):
 
         # Update initial
         self._t0 = self._t0 + self.settings.t_step
-        self._x0.master = x0
+        self._x0.master = castools.DM(x0)
         self._u0.master = castools.DM(u0)
         
         return u0
diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index a96455c..240c6be 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -48,7 +48,7 @@ class IteratedVariables:
         Pass ``val`` which can be an int, float, array, structure and return
         a numerical structure based on the second argument ``structure``.
 
-        If a structure is passed, return the structure unchanged.
+        If a structure is passed, return a structure with the same values.
 
         Performs some sanity checks.
         """
@@ -63,11 +63,14 @@ class IteratedVariables:
         n_var = struct.size
         assert n_val == n_var, err_msg.format(n_val, n_var)
 
-        # Convert to structure (or return structure)
-        if isinstance(val, (np.ndarray, castools.DM)):
-            val = struct(val)
+        # Convert to structure
+        # - The values are copied, the passed object may be changed later or belong to another object.
+        if isinstance(val, np.ndarray):
+            val = struct(val.copy())
+        elif isinstance(val, castools.DM):
+            val = struct(castools.DM(val))
         elif isinstance(val, castools.structure3.DMStruct):
-            pass
+            val = struct(castools.DM(val.cat))
         else:
             types = (np.ndarray, castools.DM, castools.structure3.DMStruct)
             raise Exception('x0 must be of tpye {}. You have: {}'.format(types, type(val)))
diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index c5c935b..300aeb2 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -699,7 +699,7 @@ class Simulator(do_mpc.model.IteratedVariables):
 
         self._x0.master = x_next
         self._z0.master = z0
-        self._u0.master = u0
+        self._u0.master = castools.DM(u0)
         self._t0 = self._t0 + self._settings.t_step 
 
         self.flags['first_step'] = False
-- 
2.43.0


From 3d5b7c6921f29eec59afecd46a54b5b119033a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 63/80] fix: query of a data field returns a copy of the record

---
 do_mpc/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 4ea590b..bbd35ee 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -152,8 +152,8 @@ class Data:
             out = getattr(self, data_field)[:, f_ind]
 
         else:
-            # If not just return the field:
-            out = getattr(self, data_field)
+            # If not just return (a copy of) the field:
+            out = getattr(self, data_field).copy()
         return out
 
     def init_storage(self)->None:
-- 
2.43.0


From 42d804ec11f43050e495cb5d8a07a2cb96830d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 64/80] fix: LQR copies the cost matrices after they were
 checked

---
 do_mpc/controller/_lqr.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index ad38947..8bbf118 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -222,7 +222,7 @@ class LQR(IteratedVariables):
         self.A_rated = np.block([[self.model._A,self.model._B],[zeros_A,identity_u]])
         self.B_rated = np.block([[self.model._B],[identity_u]])
         
-        self.delR = delR
+        self.delR = np.array(delR)
         self.mode = 'inputRatePenalization'
     
     def set_param(self,**kwargs)->None:
@@ -402,27 +402,26 @@ class LQR(IteratedVariables):
         #Verify the setup is not complete
         assert self.flags['setup'] == False, 'Objective can not be set after LQR is setup'
         
-        #Set Q, R, P
-        self.Q = Q
-        self.R = R   
-
         if P is None and self.settings.n_horizon != None:
-            self.P = Q
+            P = Q
             warnings.warn('P is not given explicitly. Q is chosen as P for calculating finite discrete gain')
-        else:
-            self.P = P
-        
-        #Verify shape of Q,R,P
-        assert self.Q.shape == (self.model.n_x,self.model.n_x), 'Q must have shape = {}. You have {}'.format((self.model.n_x,self.model.n_x),self.Q.shape)
-        assert self.R.shape == (self.model.n_u,self.model.n_u), 'R must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),self.R.shape)
-        if isinstance(self.Q, (castools.DM, castools.SX, castools.MX)):
+
+        #Verify type and shape of Q,R,P
+        if isinstance(Q, (castools.DM, castools.SX, castools.MX)):
             raise Exception('Q matrix must be of type class numpy.ndarray')
-        if isinstance(self.R, (castools.DM, castools.SX, castools.MX)):
+        if isinstance(R, (castools.DM, castools.SX, castools.MX)):
             raise Exception('R matrix must be of type class numpy.ndarray')
-        if self.settings.n_horizon != None and isinstance(self.P, (castools.DM, castools.SX, castools.MX)):
+        if self.settings.n_horizon != None and isinstance(P, (castools.DM, castools.SX, castools.MX)):
             raise Exception('P matrix must be of type class numpy.ndarray')
+        assert Q.shape == (self.model.n_x,self.model.n_x), 'Q must have shape = {}. You have {}'.format((self.model.n_x,self.model.n_x),Q.shape)
+        assert R.shape == (self.model.n_u,self.model.n_u), 'R must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),R.shape)
         if self.settings.n_horizon != None:
-            assert self.P.shape == self.Q.shape, 'P must have same shape as Q. You have {}'.format(P.shape)
+            assert P.shape == Q.shape, 'P must have same shape as Q. You have {}'.format(P.shape)
+
+        #Set Q, R, P
+        self.Q = np.array(Q)
+        self.R = np.array(R)
+        self.P = None if P is None else np.array(P)
 
     def set_setpoint(self,xss :np.ndarray= None, uss:np.ndarray = None)->None:   
         """Sets setpoints for states and inputs.
-- 
2.43.0


From 1f079a7ae2d0b8fb04ac6542a3859b6cc0642673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 65/80] fix: slack cost is not accumulated over repeated setups

---
 do_mpc/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 29d422f..72bdad6 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -565,6 +565,8 @@ class Optimizer:
         self._eps_ub = _eps(np.inf)
 
         # Set bounds, add slack variable to constraint and add cost.
+        # (the cost is reset, in case a previous setup was not completed)
+        self.slack_cost = 0
         for slack_i in self.slack_vars_list:
             self._eps_ub[slack_i['slack_name']] = slack_i['ub']
             self._nl_cons[slack_i['slack_name']] -= self._eps[slack_i['slack_name']]
-- 
2.43.0


From 9ea9a38a5f9ea22b94c22e7b81de5f5f8d505753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 66/80] fix: Model.setup with missing equations leaves the
 model usable

---
 do_mpc/model/_model.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index eec53b2..bdba411 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -932,6 +932,16 @@ class Model:
         Raises:
             assertion: Definition of right hand side (rhs) is incomplete
         """
+        assert self.flags['setup'] == False, 'Cannot call .setup more than once.'
+
+        # Check if an expression is set for every state of the system and the algebraic equations are complete
+        # (prior to any changes, such that missing declarations can be added).
+        _x_names = set(self._x['name']) - set([rhs_i['var_name'] for rhs_i in self.rhs_list])
+        assert len(_x_names) == 0, 'Definition of right hand side (rhs) is incomplete. Missing: {}. Use: set_rhs to define expressions.'.format(_x_names)
+        n_z = sum([var.numel() for var in self._z['var']])
+        n_alg = sum([alg_i.expr.numel() for alg_i in self.alg_list if alg_i.name != 'default'])
+        assert n_z == n_alg, 'Must have the same number of algebraic equations (you have {}) and variables (you have {}).'.format(n_alg, n_z)
+
         # Set all states as measurements if set_meas was not called by user.
         if not self._y_expression:
             for name, var in zip(self._x['name'], self._x['var']):
@@ -962,12 +972,8 @@ class Model:
         self._rhs = self.sv.struct(_x)
 
         # Set the expressions in self._rhs with the previously defined SX.sym variables.
-        # Check if an expression is set for every state of the system.
-        _x_names = set(self._x['name'])
         for rhs_i in self.rhs_list:
             self._rhs[rhs_i['var_name']] = rhs_i['expr']
-            _x_names -= set([rhs_i['var_name']])
-        assert len(_x_names) == 0, 'Definition of right hand side (rhs) is incomplete. Missing: {}. Use: set_rhs to define expressions.'.format(_x_names)
 
         var_dict_list = [self._x, self._w, self._v, self._u, self._z, self._p, self._tvp]
         sym_struct_list = [_x, _w, _v, _u, _z, _p, _tvp]
-- 
2.43.0


From b4f9416db67212c6094b47c23fed849c3af537c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 67/80] fix: duplicate names of expressions, measurements and
 algebraic equations are rejected

---
 do_mpc/model/_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index bdba411..a5abcf2 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -641,6 +641,7 @@ class Model:
         assert self.flags['setup'] == False, 'Cannot call .set_expression after setup'
         assert isinstance(expr_name, str), 'expr_name must be str, you have: {}'.format(type(expr_name))
         assert isinstance(expr, (castools.SX, castools.MX)), 'expr must be a casadi SX or MX type, you have:{}'.format(type(expr))
+        assert expr_name not in [entry_i.name for entry_i in self._aux_expression], 'The expression {} already exists.'.format(expr_name)
 
         self._aux_expression.append(castools.entry(expr_name, expr = expr))
 
@@ -712,6 +713,7 @@ class Model:
         assert isinstance(meas_name, str), 'meas_name must be str, you have: {}'.format(type(meas_name))
         assert isinstance(expr, (castools.SX, castools.MX)), 'expr must be a casadi SX or MX type, you have:{}'.format(type(expr))
         assert isinstance(meas_noise, bool), 'meas_noise must be of type boolean. You have: {}'.format(type(meas_noise))
+        assert meas_name not in [entry_i.name for entry_i in self._y_expression], 'The measurement {} already exists.'.format(meas_name)
 
         # Create a new process noise variable and add it to the rhs equation.
         if meas_noise:
@@ -820,6 +822,7 @@ class Model:
         assert self.flags['setup'] == False, 'Cannot call .set_alg after .setup.'
         assert isinstance(expr_name, str), 'expr_name must be str, you have: {}'.format(type(expr_name))
         assert isinstance(expr, (castools.SX, castools.MX, castools.DM)), 'expr must be a casadi SX, MX or DM type, you have:{}'.format(type(expr))
+        assert expr_name not in [entry_i.name for entry_i in self.alg_list], 'The algebraic equation {} already exists.'.format(expr_name)
 
         self.alg_list.append(castools.entry(expr_name, expr = expr))
 
-- 
2.43.0


From 768fb004707703098145feb6f577ccb219c38749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 68/80] fix: right-hand sides which do not fit their state are
 rejected

---
 do_mpc/model/_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index a5abcf2..ff61897 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -781,6 +781,8 @@ class Model:
         assert isinstance(var_name, str), 'var_name must be str, you have: {}'.format(type(var_name))
         assert isinstance(expr, (castools.SX, castools.MX, castools.DM)), 'expr must be a casadi SX, MX or DM type, you have:{}'.format(type(expr))
         assert var_name in self._x['name'], 'var_name must refer to the previously defined states ({}). You have: {}'.format(self._x['name'], var_name)
+        n_var = self._x['var'][self._x['name'].index(var_name)].numel()
+        assert expr.numel() in (1, n_var), 'expr must have as many elements as the state {} ({}). You have: {}'.format(var_name, n_var, expr.numel())
 
         # Create a new process noise variable and add it to the rhs equation.
         if process_noise:
-- 
2.43.0


From b3f623edd593ec1be306939ab93c3d1348ce0fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 69/80] fix: LinearModel.setup checks the shapes before it
 changes the model

---
 do_mpc/model/_linearmodel.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index e79c90c..1483194 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -197,6 +197,15 @@ class LinearModel(Model):
         if not isinstance(D, (np.ndarray, type(None))):
             raise ValueError('D must be a numpy array or None')
     
+        n_x = self.x.size
+        n_u = self.u.size
+
+        # Check the shapes prior to any changes of the model:
+        if isinstance(A, np.ndarray) and A.shape != (n_x, n_x):
+            raise ValueError('A must be a square matrix with size n_x x n_x. You have A.shape={}'.format(A.shape))
+        if isinstance(B, np.ndarray) and B.shape != (n_x, n_u):
+            raise ValueError('B must be a matrix with size n_x x n_u. You have B.shape={}'.format(B.shape))
+
         # Three use cases:
         # 1. C / D are given -> Create measurement function
         # 2. set_meas has been called -> Measurement function already exists
@@ -210,21 +219,12 @@ class LinearModel(Model):
             n_y = y_meas.shape[0]
             self.set_meas('y', y_meas)
 
-        n_x = self.x.size
-        n_u = self.u.size
-
         # Create x_next from A and B matrices (if available)
         x_next = None
         if isinstance(A, np.ndarray):
-            if A.shape != (n_x, n_x):
-                raise ValueError('A must be a square matrix with size n_x x n_x. You have A.shape={}'.format(A.shape))
-            else:
-                x_next = A @ self.x.cat 
+            x_next = A @ self.x.cat
         if isinstance(B, np.ndarray):
-            if B.shape != (n_x, n_u):
-                raise ValueError('B must be a matrix with size n_x x n_u. You have B.shape={}'.format(B.shape))
-            else:
-                x_next = x_next + B @ self.u.cat    
+            x_next = x_next + B @ self.u.cat
 
         # Set the rhs of the states (if x_next exists)
         if not isinstance(x_next, type(None)):
-- 
2.43.0


From 57366565eeecddabebb8dbc4e294536c9468000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 70/80] fix: invalid arguments of LQR.set_rterm, set_setpoint
 and make_step are rejected

---
 do_mpc/controller/_lqr.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 8bbf118..220a1a0 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -215,7 +215,10 @@ class LQR(IteratedVariables):
         
         :param delR: Rated input cost matrix - constant matrix with no variables
         """
-        
+        assert self.flags['setup'] == False, 'Cannot call .set_rterm after LQR is setup'
+        assert isinstance(delR, np.ndarray), 'delR must be of type class numpy.ndarray'
+        assert delR.shape == (self.model.n_u,self.model.n_u), 'delR must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),delR.shape)
+
         #Modifying A and B matrix for input rate penalization
         identity_u = np.identity(np.shape(self.model._B)[1])
         zeros_A = np.zeros((np.shape(self.model._B)[1],np.shape(self.model._A)[1]))
@@ -290,6 +293,10 @@ class LQR(IteratedVariables):
         else:
             raise Exception('Invalid type {} for x0. Must be {}'.format(type(x0), (np.ndarray, castools.DM, castools.structure3.DMStruct)))
 
+        # Check input shape.
+        assert x0.size == self.model.n_x, 'Wrong input with shape {}. Expected vector with {} elements'.format(x0.shape, self.model.n_x)
+        x0 = x0.reshape(-1,1)
+
         #setting setpoints
         if not hasattr(self, "xss") and not hasattr(self,"uss"):
             self.set_setpoint()
@@ -445,6 +452,8 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
+        assert isinstance(xss, (np.ndarray, type(None))), 'xss must be of type class numpy.ndarray. You have {}'.format(type(xss))
+        assert isinstance(uss, (np.ndarray, type(None))), 'uss must be of type class numpy.ndarray. You have {}'.format(type(uss))
         if isinstance(xss, np.ndarray):
             assert xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),xss.shape)
         if isinstance(uss, np.ndarray):
-- 
2.43.0


From 27c80988c1d1f27a847c8cc6d7e4b31579794af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 71/80] fix: LinearModel.setup rejects matrices C and D which
 do not fit

---
 do_mpc/model/_linearmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index 1483194..675b94d 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -205,6 +205,10 @@ class LinearModel(Model):
             raise ValueError('A must be a square matrix with size n_x x n_x. You have A.shape={}'.format(A.shape))
         if isinstance(B, np.ndarray) and B.shape != (n_x, n_u):
             raise ValueError('B must be a matrix with size n_x x n_u. You have B.shape={}'.format(B.shape))
+        if isinstance(C, np.ndarray) and (C.ndim != 2 or C.shape[1] != n_x):
+            raise ValueError('C must be a matrix with n_x columns. You have C.shape={}'.format(C.shape))
+        if isinstance(D, np.ndarray) and (C is None or D.shape != (C.shape[0], n_u)):
+            raise ValueError('D must be a matrix with size n_y x n_u (with n_y the number of rows of C). You have D.shape={}'.format(D.shape))
 
         # Three use cases:
         # 1. C / D are given -> Create measurement function
-- 
2.43.0


From b7145587608a5ad1c983d7a95127c979f1d72b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 72/80] fix: MPC.set_objective accepts a single term and keeps
 the previous objective if it is rejected

---
 do_mpc/controller/_mpc.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 73ab52b..a74acf4 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -546,6 +546,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             assertion: mterm must have ``shape=(1,1)`` (scalar expression)
             assertion: lterm must have ``shape=(1,1)`` (scalar expression)
         """
+        # Both terms are optional.
+        if mterm is None:
+            mterm = castools.DM(0)
+        if lterm is None:
+            lterm = castools.DM(0)
+
         assert mterm.shape == (1,1), 'mterm must have shape=(1,1). You have {}'.format(mterm.shape)
         assert lterm.shape == (1,1), 'lterm must have shape=(1,1). You have {}'.format(lterm.shape)
         assert self.flags['setup'] == False, 'Cannot call .set_objective after .setup().'
@@ -561,31 +567,25 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         if not isinstance(lterm, (castools.DM, castools.SX, castools.MX)):
             raise Exception('lterm must be of type casadi.DM, casadi.SX or casadi.MX. You have: {}.'.format(type(lterm)))
 
-        if mterm is None:
-            self.mterm = castools.DM(0)
-        else:
-            self.mterm = mterm
         # TODO: This function should be evaluated with scaled variables.
-        self.mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
-
-        if lterm is None:
-            self.lterm = castools.DM(0)
-        else:
-            self.lterm = lterm
-
-        self.lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
+        mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
+        lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
 
         # Check if lterm and mterm use invalid variables as inputs.
         # For the check we evaluate the function with dummy inputs and expect a DM output.
         err_msg = '{} contains invalid symbolic variables as inputs. Must contain only: {}'
         try:
-            self.mterm_fun(_x(0),_tvp(0),_p(0))
+            mterm_fun(_x(0),_tvp(0),_p(0))
         except:
             raise Exception(err_msg.format('mterm','_x, _tvp, _p'))
         try:
-            self.lterm(_x(0),_u(0), _z(0), _tvp(0), _p(0))
+            lterm_fun(_x(0),_u(0), _z(0), _tvp(0), _p(0))
         except:
-            err_msg.format('lterm', '_x, _u, _z, _tvp, _p')
+            raise Exception(err_msg.format('lterm', '_x, _u, _z, _tvp, _p'))
+
+        # Both terms are valid:
+        self.mterm, self.mterm_fun = mterm, mterm_fun
+        self.lterm, self.lterm_fun = lterm, lterm_fun
 
         self.flags['set_objective'] = True
 
-- 
2.43.0


From 24b5c0eb41ba00a205cc90b05e04a61121dfa1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 73/80] fix: MPC.set_rterm sets no value if one of them is
 rejected

---
 do_mpc/controller/_mpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index a74acf4..fad8103 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -671,7 +671,11 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             for key, val in kwargs.items():
                 assert key in self.model._u.keys(), 'Must pass keywords that refer to input names defined in model. Valid is: {}. You have: {}'.format(self.model._u.keys(), key)
                 assert isinstance(val, (int, float, np.ndarray)), 'Value for {} must be int, float or numpy.ndarray. You have: {}'.format(key, type(val))
-                self.rterm_factor[key] = val
+            # Set values only if all of them are valid (a copy is written, it may fail for incorrect shapes):
+            rterm_factor = self.model._u(castools.DM(self.rterm_factor.cat))
+            for key, val in kwargs.items():
+                rterm_factor[key] = val
+            self.rterm_factor = rterm_factor
 
         self.flags['set_rterm'] = True
 
-- 
2.43.0


From 48c10b1bc0971702963cc2c4f9ff44cc39032701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 74/80] fix: MPC.set_uncertainty_values keeps the previous
 scenarios if it is rejected

---
 do_mpc/controller/_mpc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index fad8103..963827a 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -869,14 +869,16 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         values = kwargs.values()
         p_scenario = list(itertools.product(*values))
         n_combinations = len(p_scenario)
+        n_combinations_prev = getattr(self, 'n_combinations', None)
         p_template = self.get_p_template(n_combinations)
 
-        if kwargs:
-            # Dict case (only parameters with name are set):
+        try:
+            # Only parameters with name are set:
             p_template['_p', :, names] = p_scenario
-        else:
-            # List case (assume ALL parameters are given ...)
-            p_template['_p', :] = p_scenario
+        except:
+            # Values with incorrect shapes: The previous scenarios remain valid.
+            self.n_combinations = n_combinations_prev
+            raise
 
         def p_fun(t_now):
             return p_template
-- 
2.43.0


From c96542e52ceeafc9ca680118862449ce47b7e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 75/80] fix: MHE.set_objective keeps the previous objective if
 it is rejected

---
 do_mpc/estimator/_mhe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 63ab584..9a51dd0 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -576,24 +576,28 @@ class MHE(Optimizer, Estimator):
 
 
         stage_cost_input = self._w, self._v, self.model._tvp, self.model._p
-        self.stage_cost_fun = castools.Function('stage_cost_fun', [*stage_cost_input], [stage_cost])
+        stage_cost_fun = castools.Function('stage_cost_fun', [*stage_cost_input], [stage_cost])
 
         arrival_cost_input = self._x, self._x_prev, self._p_est, self._p_est_prev, self._p_set
-        self.arrival_cost_fun = castools.Function('arrival_cost_fun', [*arrival_cost_input], [arrival_cost])
+        arrival_cost_fun = castools.Function('arrival_cost_fun', [*arrival_cost_input], [arrival_cost])
 
         # Check if stage_cost_fun and arrival_cost_fun use invalid variables as inputs.
         # For the check we evaluate the function with dummy inputs and expect a DM output.
         try:
-            self.stage_cost_fun(*[input_i(0) for input_i in stage_cost_input])
+            stage_cost_fun(*[input_i(0) for input_i in stage_cost_input])
         except:
             err_msg = 'objective cost equation must be solely depending on w, v, p and tvp.'
             raise Exception(err_msg)
         try:
-            self.arrival_cost_fun(*[input_i(0) for input_i in arrival_cost_input])
+            arrival_cost_fun(*[input_i(0) for input_i in arrival_cost_input])
         except:
             err_msg = 'Arrival cost equation must be solely depending on x_0, x_prev, p_0, p_prev, p_set'
             raise Exception(err_msg)
 
+        # Both terms are valid:
+        self.stage_cost_fun = stage_cost_fun
+        self.arrival_cost_fun = arrival_cost_fun
+
         self.flags['set_objective'] = True
 
     def set_default_objective(self, 
-- 
2.43.0


From 4c52db5b15188845ffc82efa6978191a232357cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:39 +0000
Subject: [PATCH 76/80] fix: compile_nlp loads the compiled solver with
 castools.nlpsol

---
 do_mpc/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 72bdad6..3ce36d9 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -727,7 +727,7 @@ class Optimizer:
             subprocess.Popen(compiler_command, shell=True).wait()
 
         # Overwrite solver object with loaded nlp:
-        self.S = nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+        self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From 393e91732733f7c0840c73d84fa5add5e2a3d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 77/80] fix: compile_nlp uses the library it compiled, not one
 loaded earlier or left by a failed compilation

---
 do_mpc/optimizer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 3ce36d9..33877d5 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -29,6 +29,8 @@ import pdb
 import do_mpc
 from typing import Union,Callable
 import os
+import shutil
+import tempfile
 import subprocess
 
 class Optimizer:
@@ -719,15 +721,19 @@ class Optimizer:
 
         # Only compile if not already compiled:
         if overwrite or not os.path.isfile(libname):
-            # Create c code from solver object
+            # Create c code from solver object (self.S may already be a compiled solver)
             print('Generating c-code of nlp.')
-            self.S.generate_dependencies(cname)
+            castools.nlpsol('S', 'ipopt', self.nlp, self.settings.nlpsol_opts).generate_dependencies(cname)
             # Compile c code
             print('Compiling c-code of nlp.')
-            subprocess.Popen(compiler_command, shell=True).wait()
-
-        # Overwrite solver object with loaded nlp:
-        self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+            if subprocess.Popen(compiler_command, shell=True).wait() != 0:
+                raise Exception('Compilation of the NLP failed.')
+
+        # Overwrite solver object with loaded nlp. A temporary copy is loaded because the dynamic loader returns
+        # a library that is already loaded under the same name (e.g. the NLP of another optimizer).
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            lib_copy = shutil.copy(libname, tmp_dir)
+            self.S = castools.nlpsol('solver_compiled', 'ipopt', lib_copy, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From cdc7766485ded20f4e32ebda272c109cb02c810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 78/80] fix: Data.update records solver statistics that are
 text or dictionaries

---
 do_mpc/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index bbd35ee..5906bf3 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -212,7 +212,7 @@ class Data:
             if type(value) == castools.DM:
                 # Convert to numpy
                 value = value.full()
-            elif type(value) in [float, int, bool]:
+            elif type(value) in [float, int, bool, str, dict]:
                 value = np.array(value)
             # Get current results array for the given key:
             arr = getattr(self, key)
-- 
2.43.0


From 1f5a65b34c77f05e1b5457c1e67a5ab8c5bdd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 79/80] fix: Data.export returns copies of the records

---
 do_mpc/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 5906bf3..a72e1c1 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -229,7 +229,7 @@ class Data:
         Returns:
             Dictionary of the currently stored data.
         """
-        export_dict = {field_name: getattr(self, field_name) for field_name in self.data_fields}
+        export_dict = {field_name: getattr(self, field_name).copy() for field_name in self.data_fields}
         return export_dict
 
 
-- 
2.43.0


From 7308d09ad325833f8b10d622b051f41a172c92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:05 +0000
Subject: [PATCH 80/80] fix: keep single optimization variable bounds when
 another bound is changed at run time

---
 do_mpc/controller/_mpc.py |  7 +------
 do_mpc/optimizer.py       | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 963827a..60f2435 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -471,12 +471,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             var_struct = self.model._x(castools.DM(var_struct.cat))
             setattr(self, query, var_struct)
 
-        # Set value on struct:
-        var_struct[var_name] = val
-
-        # Update bounds of optimization variables, if the problem is already created:
-        if self.flags['prepare_nlp']:
-            self._update_bounds()
+        self._set_bounds(var_struct, var_name, val)
 
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 33877d5..3ceabb3 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -347,12 +347,31 @@ class Optimizer:
         err_msg = 'Calling .bounds with {} is not valid. Possible keys are {}.'
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
+        self._set_bounds(var_struct, var_name, val)
+
+    def _set_bounds(self, var_struct, var_name, val):
+        """Private method to set the bounds of a variable. If the problem is already created, the bounds of the affected optimization variables
+        are updated. Bounds of other optimization variables (e.g. set with :py:attr:`lb_opt_x`) are kept.
+        """
+        if not self.flags['prepare_nlp']:
+            var_struct[var_name] = val
+            return
+
+        opt_x_bounds = (self._lb_opt_x, self._ub_opt_x)
+        current = [castools.DM(bound.cat) for bound in opt_x_bounds]
+        # Bounds resulting from the previous value:
+        self._update_bounds()
+        previous = [castools.DM(bound.cat) for bound in opt_x_bounds]
+        for bound, current_i in zip(opt_x_bounds, current):
+            bound.master = castools.DM(current_i)
+
         # Set value on struct:
         var_struct[var_name] = val
 
-        # Update bounds of optimization variables, if the problem is already created:
-        if self.flags['prepare_nlp']:
-            self._update_bounds()
+        # Update bounds of optimization variables, if they are affected:
+        self._update_bounds()
+        for bound, current_i, previous_i in zip(opt_x_bounds, current, previous):
+            bound.master = castools.DM(np.where(bound.cat.full() == previous_i.full(), current_i.full(), bound.cat.full()))
 
 
     @do_mpc.tools.IndexedProperty
-- 
2.43.0

