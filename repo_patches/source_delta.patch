From 7f6ba4c648fc0fe6cd7deeaa7c68c81922098ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 01/74] fix: computing the likelihood of a one-observation
 sequence overwrote the model's initial distribution

---
 jajapy/base/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3741de2..c3b31cb 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -372,7 +372,7 @@ class Model:
 				p = array([self.tau(ss,s,sequence[k]) for ss in range(self.nb_states)])
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
-		prev_arr *= (array([self.b(s,sequence[-1]) for s in range(self.nb_states)]))
+		prev_arr = prev_arr*(array([self.b(s,sequence[-1]) for s in range(self.nb_states)]))
 		try:
 			res = log(prev_arr.sum())*times
 		except ValueError:
-- 
2.43.0


From cac97bcf7a240c521ba23fc448583def6189bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 02/74] fix: CTMC.toMC overwrote the rates of the CTMC and
 failed on absorbing states

---
 jajapy/ctmc/CTMC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 872e9b4..67f705a 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -274,9 +274,10 @@ class CTMC(Base_MC):
 		MC
 			An equivalent untimed model.
 		"""
-		new_matrix = self.matrix
+		new_matrix = array(self.matrix)
 		for i in range(self.nb_states):
-			new_matrix[i] /= self.e(i)
+			if self.e(i) > 0.0:
+				new_matrix[i] /= self.e(i)
 
 		return MC(new_matrix,self.labelling,name)
 
-- 
2.43.0


From e65f3af4536d1988f4a3ed5611a010c46f5cf26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 03/74] fix: CTMC/PCTMC.tau was nan/inf in absorbing states,
 which made untimed likelihoods nan

---
 jajapy/ctmc/CTMC.py   | 5 ++++-
 jajapy/pctmc/PCTMC.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 67f705a..26b8e21 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,7 +131,10 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
-		return self.l(s1,s2, obs)/self.e(s1)
+		e = self.e(s1)
+		if e == 0.0:
+			return 0.0
+		return self.l(s1,s2, obs)/e
 	
 	def expected_time(self, s:int) -> float:
 		"""
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a90d86c..f2b9e32 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -141,7 +141,7 @@ class PCTMC(Parametric_Model):
 		try:
 			e = self.e(s1)
 			if e == 0.0:
-				return inf
+				return 0.0
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From f4e3d554ed335946207eda7483042d5a92593905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 04/74] fix: CTMC/PCTMC simulation took transitions of rate 0
 (slow states, absorbing states)

---
 jajapy/ctmc/CTMC.py   | 4 +++-
 jajapy/pctmc/PCTMC.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 26b8e21..4959b44 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -176,9 +176,11 @@ class CTMC(Base_MC):
 		exps = []
 		for exp_lambda in self.matrix[state]:
 			if exp_lambda <= 0.0:
-				exps.append(1024)
+				exps.append(numpy.inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
+		if min(exps) == numpy.inf: # absorbing state
+			return (self.labelling[state], state, numpy.inf)
 		next_state= exps.index(min(exps))
 		next_obs = self.labelling[state]
 		return (next_obs, next_state, min(exps))
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index f2b9e32..6916b2f 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -287,6 +287,8 @@ class PCTMC(Parametric_Model):
 				exps.append(inf)
 			else:
 				exps.append(exponential(1/exp_lambda))
+		if min(exps) == inf: # absorbing state
+			return (self.labelling[state], state, inf)
 		next_state= exps.index(min(exps))
 		next_obs  = self.labelling[state]
 		return (next_obs, next_state, min(exps))
-- 
2.43.0


From 3f365acf5e63f83c57e331b1206289b137781070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 05/74] fix: PCTMC.logLikelihood crashed on non-timed traces
 (no method b)

---
 jajapy/base/Parametric_Model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index a6e29e0..0ccea98 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -334,6 +334,11 @@ class Parametric_Model(Model):
 		self._checkStateIndex(state)
 		return self.labelling[state]
 	
+	def b(self,state:int, label:str) -> float:
+		if self.getLabel(state) == label:
+			return 1.0
+		return 0.0
+
 	def getAlphabet(self) -> list:
 		"""
 		Returns the alphabet of this model.
-- 
2.43.0


From 7aae030dcdb444c6de692ed7c76c85a7dcd3a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 06/74] fix: PCTMC.logLikelihood crashed on timed traces the
 model cannot generate

---
 jajapy/pctmc/PCTMC.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 6916b2f..00eb8b8 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -336,7 +336,11 @@ class PCTMC(Parametric_Model):
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
 		last_arr = prev_arr * (array(self.labelling) == obs_seq[-1])
-		return log(last_arr.sum())*times
+		try:
+			res = log(last_arr.sum())*times
+		except ValueError:
+			return False
+		return res
 
 	def logLikelihood(self,traces: Set) -> float:
 		"""
@@ -366,6 +370,9 @@ class PCTMC(Parametric_Model):
 				temp = [res.get() for res in tasks if res.get() != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
+				temp = [i for i in temp if i != False]
+			if len(temp) == 0:
+				return -9999
 			return sum(temp)/sum(traces.times)
 
 	def save(self,file_path:str) -> None:
-- 
2.43.0


From 62b84bcb91dfff8915790df4601552b6cbb928b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 07/74] fix: PCTMC.instantiate accepted values leading to
 negative rates

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 00eb8b8..1eaad72 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -174,7 +174,7 @@ class PCTMC(Parametric_Model):
 			values = self.parameter_values
 		xs,ys = where(self.matrix != 0)
 		for x,y in zip(xs,ys):
-			v = self.evaluateTransition(x,y)
+			v = self.evaluateTransition(x,y,values)
 			if type(v) == float:
 				if v < 0.0:
 					return False
-- 
2.43.0


From 8bb2f21f62fbebcb3d915631a05de944579899cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 08/74] fix: absorbing states of CTMCs/PCTMCs stay where they
 are in tau and toMC, as in the simulation

---
 jajapy/ctmc/CTMC.py   | 6 ++++--
 jajapy/pctmc/PCTMC.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 4959b44..3d7b8d1 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -132,8 +132,8 @@ class CTMC(Base_MC):
 			A probability.
 		"""
 		e = self.e(s1)
-		if e == 0.0:
-			return 0.0
+		if e == 0.0: # absorbing state
+			return float(s1 == s2 and obs == self.labelling[s1])
 		return self.l(s1,s2, obs)/e
 	
 	def expected_time(self, s:int) -> float:
@@ -283,6 +283,8 @@ class CTMC(Base_MC):
 		for i in range(self.nb_states):
 			if self.e(i) > 0.0:
 				new_matrix[i] /= self.e(i)
+			else: # absorbing state
+				new_matrix[i,i] = 1.0
 
 		return MC(new_matrix,self.labelling,name)
 
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 1eaad72..2c8b519 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -140,8 +140,8 @@ class PCTMC(Parametric_Model):
 		"""
 		try:
 			e = self.e(s1)
-			if e == 0.0:
-				return 0.0
+			if e == 0.0: # absorbing state
+				return float(s1 == s2 and obs == self.labelling[s1])
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From 5fb6c202e5cd6cb73a0bd9e29daf19aa333c373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 09/74] fix: BW.fit crashed on PCTMCs (default
 fixed_parameters, shapes of the alpha/beta matrices)

---
 jajapy/base/BW.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 43ed06d..7d50af7 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -252,6 +252,8 @@ class BW:
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
+			if type(fixed_parameters) == bool:
+				fixed_parameters = []
 			self._sortParameters(fixed_parameters)
 
 		elif self.type_model == HMM_ID:
@@ -567,10 +569,11 @@ class BW:
 
 		pi = self.h.initial_state
 
-		alpha = empty((n_obs + 1, self.nb_states))
+		alpha = empty((n_obs, self.nb_states))
 		alpha[0] = pi
-		for t in range(1, n_obs + 1):
+		for t in range(1, n_obs):
 			alpha[t] = tau.T @ (phi[t - 1] * alpha[t - 1])
+		alpha[-1] *= phi[-1]
 
 		return alpha.T
 
@@ -1489,7 +1492,7 @@ class BW:
 			self.type_model = CTMC_ID
 			self.h = CTMC_random(nb_states,self.alphabet,min_exit_rate_time,max_exit_rate_time,self_loop,random_initial_state)
 
-	def _computeAlphas_matrix(self, sequence: list[str]) -> array:
+	def _computeAlphas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the alpha values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1562,7 +1565,7 @@ class BW:
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
 		return alpha_matrix.T
 
-	def _computeBetas_matrix(self, sequence: list[str]) -> array:
+	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the beta values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
-- 
2.43.0


From 02a0e92befb6953b80480a07316baf5fbd69c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 10/74] fix: BW.fit on non-timed traces never stopped if the
 CTMC has an absorbing state

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 7d50af7..8b20553 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -729,7 +729,8 @@ class BW:
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq]) # not sure
+						e = self._h_e(s)
+						p = array([self._h_l(s,ss,o)/e if e > 0.0 else 0.0 for o in obs_seq]) # not sure
 					num[s,ss] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 				else:
 					num[s,ss] = 0.0
-- 
2.43.0


From 145971325a0915f3a0a7190debbf1c7efd477a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 11/74] fix: BW.fit_parameters and
 fit_nonInstantiatedParameters always crashed

---
 jajapy/base/BW.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 8b20553..cb69a64 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1327,6 +1327,11 @@ class BW:
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
 		self.h = initial_model
+		self.verbose = 2 if verbose else 0
+		if platform == "win32" or platform == "darwin":
+			self.processes = 1
+		else:
+			self.processes = cpu_count()-1
 
 		update_constant = False
 		fixed_parameters = []
-- 
2.43.0


From d0511dff0913fddc4aafe0a99e67e96a6033acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 12/74] fix: BW.fit_nonInstantiatedParameters also changed the
 instantiated parameters

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index cb69a64..a92bceb 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1260,7 +1260,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		to_update = []
 		for p in initial_model.parameter_str:
-			to_update.append(p)
+			if not initial_model.isInstantiated(param=p):
+				to_update.append(p)
 		
 		return self.fit_parameters(traces,initial_model,to_update,epsilon,
 								max_it,pp,verbose,return_data,min_val,max_val)
-- 
2.43.0


From 18a3521d23b574546b687e13d9466348a40cf8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 13/74] fix: BW.fit with one process crashed if the hypothesis
 cannot generate one of the sequences

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index a92bceb..4bb3862 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1656,7 +1656,8 @@ class BW:
 				tasks.append(p.apply_async(self._processWork, [seq, times,]))
 			return [res.get() for res in tasks if res.get() != False]
 		else:
-			return [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			temp = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			return [res for res in temp if res != False]
 	
 	def _endPrint(self,it,rt):
 		print()
-- 
2.43.0


From e877074a08820dfa75bea7e0832b7585831b9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 14/74] fix: fitting PCTMC parameters on non-timed traces
 failed with absorbing states

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 4bb3862..423afcd 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1066,8 +1066,8 @@ class BW:
 		if self.h.labelling[s1] != obs:
 			return 0.0
 		e = self._h_e(s1)
-		if e == 0.0:
-			return inf
+		if e == 0.0: # absorbing state
+			return float(s1 == s2)
 		return self.hval[s1,s2]/e
 
 	def _processWork_PCTMC(self,sequence: list, times: int):
-- 
2.43.0


From 23587925b5014e432031ac7c793feffeca875031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 15/74] fix: createPCTMC gave equal constant rates one entry
 and left unused entries, BW.fit crashed on them

---
 jajapy/pctmc/PCTMC.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2c8b519..7eb44be 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -540,9 +540,13 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	for t in transitions:
 		val = str(t[2])
 		expr = sympify(val)
-		if expr.is_real or not expr in transition_expr:
+		if expr == 0:
+			matrix[t[0],t[1]] = 0
+		elif expr.is_real or not expr in transition_expr:
+			matrix[t[0],t[1]] = len(transition_expr)
 			transition_expr.append(expr)
-		matrix[t[0],t[1]] = transition_expr.index(expr)
+		else:
+			matrix[t[0],t[1]] = transition_expr.index(expr)
 		for p in expr.free_symbols:
 			parameter_indexes[parameter_str.index(str(p))].append([t[0],t[1]])
 
-- 
2.43.0


From 0f7f74c8b35b3f0058108d989f517d805ca6de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 16/74] fix: fitting PCTMC parameters crashed on powers of
 fixed parameters and on unused parameters

---
 jajapy/base/BW.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 423afcd..c7506db 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -886,6 +886,8 @@ class BW:
 			if not p in fixed_parameters:
 				apis = [self.a_pis[x,y,ip] for x,y in self.h.parameterIndexes(p)]
 				cs = [self._C(x,y) for x,y in self.h.parameterIndexes(p)]
+				if len(apis) == 0: # not used in any transition: nothing to learn
+					continue
 				if min(apis) == 1 and max(apis) == 1 and min(cs) == 1 and max(cs) == 1:
 					self.parameters_cat[0].append(p)
 				elif min(cs) == max(cs):
@@ -977,7 +979,7 @@ class BW:
 					if not a.name == p:
 						res *= self.h.parameterValue(a.name)
 				else:
-					res *= a
+					res *= a.evalf(subs=self.h.parameter_values)
 			return float(res)
 		else:
 			return 1
-- 
2.43.0


From d8c9034dbf1c37c3e652c4392327183b7e3e416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 17/74] fix: BW.fit doubled the fixed rates of the CTMC states
 not visited by the training set

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index c7506db..ae42030 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -748,7 +748,7 @@ class BW:
 		for s in range(len(den)):
 			if den[s] == 0.0:
 				den[s] = 1.0
-				num[s] = self.h.matrix[s]
+				num[s] = where(self.fixed_parameters[s],0.0,self.h.matrix[s])
 
 		matrix = num/den[:, newaxis]
 		matrix = self.h.matrix*self.fixed_parameters + matrix
-- 
2.43.0


From 7fa93ea8ed025a450928e1760abc116b4ef80d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 18/74] fix: BW.fit took the square root of the sigmas of
 unreachable GoHMM states

---
 jajapy/base/BW.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index ae42030..1e896e9 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -847,6 +847,7 @@ class BW:
 			if den[s] == 0.0:
 				den[s] = 1.0
 				mu[s], va[s] = self.h.output[s].T
+				va[s] = va[s]**2
 				a[s] = self.h.matrix[s]
 		
 		output_mu = (mu.T/den).T
-- 
2.43.0


From 85a12b7d0a067150c3d75eaddd8d6109ada18665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 19/74] fix: BW.fit failed with an unrelated error if no
 sequence can be generated by the hypothesis

---
 jajapy/base/BW.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 1e896e9..6673bc6 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -295,6 +295,10 @@ class BW:
 			while counter < max_it:
 				self._computeTaus()
 				temp = self._runProcesses(self.training_set)
+				if len(temp) == 0:
+					msg = 'The current hypothesis is not able to generate any of the '
+					msg+= 'sequence in the training set.'
+					raise ValueError(msg)
 				currentloglikelihood = self._update(temp)
 				counter += 1
 				bar_text = '   Diff. loglikelihood: '+str(round(currentloglikelihood-prevloglikelihood,5))+' (>'+str(epsilon)+')'
-- 
2.43.0


From 6d76ac2404234ab42977a348b29dcc6b67305ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 20/74] fix: fit_nonInstantiatedParameters crashed without
 min_val/max_val, the parameters were never instantiated

---
 jajapy/base/BW.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 6673bc6..a1e32fd 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1404,7 +1404,9 @@ class BW:
 				self.h.randomInstantiation(min_val=min_val)
 		elif max_val != None:
 			self.h.randomInstantiation(max_val=max_val)
-		
+		else:
+			self.h.randomInstantiation()
+
 		if self.training_set.type == 4:
 			self._computeAlphas = self._computeAlphas_timed
 			self._computeBetas  = self._computeBetas_timed
-- 
2.43.0


From ea962d02798e76245e2190c14c0e3db80a572c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 21/74] fix: composition of two CTMCs with self-loops referred
 to parameters that do not exist

---
 jajapy/ctmc/CTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 3d7b8d1..b4f8439 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -586,7 +586,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			for j in m2_sids:
 				if m2.matrix[j,j] != 0.0:
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
-					t_e.append(sympify("p"+str(i)+'_'+str(i)+'+q'+str(j)+'_'+str(j)))
+					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
-- 
2.43.0


From 152b01350d2f43c041bb1a203b3cdc6b82b7ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 22/74] fix: composition of CTMCs overflowed with more than 255
 different transitions

---
 jajapy/ctmc/CTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index b4f8439..d0cffac 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -534,7 +534,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint8')
+	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -595,8 +595,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint8')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint8')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
-- 
2.43.0


From 3a8d07e0f7d4cad5937f80e6020583ca706c6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 23/74] fix: composition mixed up states if the initial state
 of a module is not the last one

---
 jajapy/ctmc/CTMC.py   | 12 ++++++------
 jajapy/pctmc/PCTMC.py |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index d0cffac..f248c3c 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -531,8 +531,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -626,12 +626,12 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj <= 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(t_e)
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = len(t_e)
 				t_e.append(sympify('initp_'+str(i)+'*initq_'+str(j)))
-				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(i,j)])
-				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(i,j)])
+				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(m1_sids[i],m2_sids[j])])
+				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(m1_sids[i],m2_sids[j])])
 	
 	i = 0
 	while i < len(matrix): # removing unreachable states
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 7eb44be..dd35fa9 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -655,8 +655,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -757,9 +757,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj == 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(trans_expr)
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = len(trans_expr)
 				trans_expr.append(sympify(str(si*sj)))
 
 	return PCTMC(matrix,labelling,trans_expr,p_v,p_i,p_str,name), sync_trans
-- 
2.43.0


From 2b965695eb6843ebac5da3eb7f2adcf9991afa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 24/74] fix: composition of PCTMCs lost the self-loops of the
 first module

---
 jajapy/pctmc/PCTMC.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index dd35fa9..fc11eed 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -674,15 +674,19 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		if model == 1:
 			for i in m2_sids:
 				x,y = get_state_index(s1,i),get_state_index(s2,i)
-				matrix[x,y] = trans
+				if trans != 0:
+					matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 		elif model == 2:
 			for i in m1_sids:
 				x,y = get_state_index(i,s1),get_state_index(i,s2)
-				matrix[x,y] = trans
+				if trans != 0:
+					matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 	
 	def add_transition(i,j,model):
 		if model == 1:
-- 
2.43.0


From 3e2374b795a51a4f1411377ba53217daf60d1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 25/74] fix: composition of PCTMCs lost the parameter values of
 the second module

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index fc11eed..5287547 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -660,7 +660,7 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-	p_v = m1.parameter_values #TODO m2.parameter_values
+	p_v = {**m2.parameter_values, **m1.parameter_values}
 	p_str = list(set(m1.parameter_str+m2.parameter_str))
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
-- 
2.43.0


From 06f6e763e2072a287cf1c3c7e736aec36ae61648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 26/74] fix: composition of 3 PCTMCs added its synchronous
 transitions to every other model (shared default list)

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index f248c3c..6540d21 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -43,7 +43,7 @@ class CTMC(Base_MC):
 			Default is an empty list.
 		"""
 		self.model_type = CTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 
 		super().__init__(matrix,labelling,name)
 		for s in range(self.nb_states):
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 5287547..463cc51 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -52,7 +52,7 @@ class PCTMC(Parametric_Model):
 			Default is an empty list.
 		"""
 		self.model_type = PCTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 		super().__init__(matrix,labelling,transition_expr,parameter_values,parameter_indexes,parameter_str,name)
 
 	def e(self,s: int) -> float:
-- 
2.43.0


From f2410f5bd4bd78bcb9dcbf5adb5a5857d826d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 27/74] fix: composition of PCTMCs failed if a synchronous
 transition has a parametric rate

---
 jajapy/pctmc/PCTMC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 463cc51..a378e51 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -629,7 +629,9 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p)].append([i,d])
+			indexes = m1.parameter_indexes[m1.parameter_str.index(p.name)]
+			if not [i,d] in indexes:
+				indexes.append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -708,8 +710,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		expr2 = sympify(expr2)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
-			if not p in p_str:
-				p_str.append(p)
+			if not p.name in p_str:
+				p_str.append(p.name)
 				p_i.append([])
 		x, y = get_state_index(s1,s2), get_state_index(d1, d2)
 		return [x,a,y,expr]
-- 
2.43.0


From 7bad1a6f9557d8d94edc75e75a6a019201a50b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 28/74] fix: resolveRandom raised an IndexError from time to
 time if the sum is slightly lower than 1

---
 jajapy/base/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 9ea2ab4..4962db8 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -56,7 +56,7 @@ def resolveRandom(m: list) -> int:
 	"""
 	m = array(m).cumsum()
 	mi = nonzero(m)[0]
-	r = random()
+	r = random()*m[-1] # the sum could be slightly lower than 1.0
 	i = 0
 	while r > m[mi[i]]:
 		i += 1
-- 
2.43.0


From 6c7f152b0040c8229ad826be1ad31c8457984876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 29/74] fix: Active_BW_MDP crashed with one process and on
 sequences the hypothesis cannot generate

---
 jajapy/mdp/Active_BW_MDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bd5516a..9decb11 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -331,10 +331,10 @@ class Active_BW_MDP(BW):
 			tasks = []
 			for seq,times in zip(traces.sequences,traces.times):
 				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks if res != False]
+			temp = [res.get() for res in tasks if type(res.get()) != bool]
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
-			temp = [i for i in temp if i!=False]
+			temp = [i for i in temp if type(i) != bool]
 		res = sum(temp)
 		return res
 
-- 
2.43.0


From 73b4c489a2d925de9dfad85d83a181ea2ab8c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 30/74] fix: Active_BW_MDP ignored the learning rate, the
 previous hypothesis was an alias of the new one

---
 jajapy/mdp/Active_BW_MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 9decb11..4896b08 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -4,6 +4,7 @@ from ..base.Set import Set
 from ..base.tools import resolveRandom
 from multiprocessing import Pool
 from random import random
+from copy import deepcopy
 from numpy import zeros, dot, array, inf
 from time import perf_counter
 
@@ -235,7 +236,7 @@ class Active_BW_MDP(BW):
 					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
 				else:
 					lr_it = lr
-				old_h = self.h
+				old_h = deepcopy(self.h)
 				_, info = super().fit(traces, initial_model=self.h,
 							output_file=output_file, epsilon=epsilon,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
-- 
2.43.0


From 6b8c362e32f1f32c2c97d7e9277b8f885356fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 31/74] fix: Active_BW_MDP crashed with return_data and
 stormpy_output

---
 jajapy/mdp/Active_BW_MDP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 4896b08..bebfd87 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -257,13 +257,15 @@ class Active_BW_MDP(BW):
 		if verbose == 3:
 			self._endPrint(counter,running_time)
 
-		if stormpy_output :
-			self.h = self.jajapyModeltoStormpy(self.h)
-			
 		if return_data:
 			info = {"learning_rounds":counter,
 					"learning_time":running_time,
 					"training_set_loglikelihood":self.h.logLikelihood(total_traces)}
+
+		if stormpy_output :
+			self.h = self.jajapyModeltoStormpy(self.h)
+
+		if return_data:
 			return self.h, info
 	
 
-- 
2.43.0


From 1124fe29f747df41f0eb52e56fd8740e17dc8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 32/74] fix: the active learning scheduler could choose forever
 an action the SUL refuses, and failed on unvisited states

---
 jajapy/mdp/Active_BW_MDP.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bebfd87..aa57f36 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -49,7 +49,9 @@ class ActiveLearningScheduler:
 			Action chosen by the scheduler.
 		"""
 		tot = self.mat[s].sum()
-		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
+		if tot <= 0.0 or self.m.nb_actions == 1: # nothing known about this state
+			return resolveRandom([1/self.m.nb_actions]*self.m.nb_actions)
+		acts= [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
 		return resolveRandom(acts)
 
 
@@ -68,7 +70,10 @@ class ActiveLearningScheduler:
 		else:
 			t = [i/tot for i in self.alpha_matrix]
 		s_i = resolveRandom(t)
-		self.last_act = self.getActionState(s_i)
+		if self.last_act is None:
+			self.last_act = self.getActionState(s_i)
+		else: # the last choice is not available: any other one will do
+			self.last_act = resolveRandom([1/self.m.nb_actions]*self.m.nb_actions)
 		return self.m.actions[self.last_act]
 
 
@@ -90,6 +95,7 @@ class ActiveLearningScheduler:
 				p = array([self.m.tau(ss,self.m.actions[self.last_act],s,obs) for ss in range(self.nb_states)])
 				alpha_matrix[s] = dot(self.alpha_matrix,p)
 			self.alpha_matrix = alpha_matrix
+		self.last_act = None
 
 
 class Active_BW_MDP(BW):
-- 
2.43.0


From cb434d79d1e1fc70eb8e4c707ec0e97c0b4f2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 33/74] fix: FiniteMemoryScheduler.getSequenceStates always
 crashed

---
 jajapy/mdp/Scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Scheduler.py b/jajapy/mdp/Scheduler.py
index adadd28..78377d8 100644
--- a/jajapy/mdp/Scheduler.py
+++ b/jajapy/mdp/Scheduler.py
@@ -180,7 +180,7 @@ class FiniteMemoryScheduler:
 		self.reset()
 		res = [0]
 		for o in seq_obs:
-			self.add_observation(o)
+			self.addObservation(o)
 			res.append(self.s)
 		return res
 
-- 
2.43.0


From 7c5c19e9b9c0ac2f858c38a58f6a01992f4ca326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 34/74] fix: MDP.run and generateSet crashed with a
 MemorylessScheduler

---
 jajapy/mdp/MDP.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 551def5..9b930a7 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -2,7 +2,7 @@ from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
-from .Scheduler import Scheduler
+from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
@@ -205,10 +205,12 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
-			action = scheduler.getAction()
+			action = self._chooseAction(scheduler,current)
 
 			while action not in self.getActions(current):
-				action = scheduler.getAction()
+				if isinstance(scheduler,MemorylessScheduler): # it would never change its mind
+					raise ValueError("Action "+str(action)+" is not available in state "+str(current))
+				action = self._chooseAction(scheduler,current)
 			
 			next_state, observation = self.next(current,action)
 			res.append(observation)
@@ -219,6 +221,11 @@ class MDP(Base_MC):
 		res.append(self.labelling[current])
 		return res
 
+	def _chooseAction(self, scheduler: Scheduler, state: int) -> str:
+		if isinstance(scheduler,MemorylessScheduler):
+			return scheduler.getAction(state)
+		return scheduler.getAction()
+
 	def generateSet(self, set_size: int, param, scheduler: Scheduler, distribution=None, min_size=None) -> list:
 		"""
 		Generates a set (training set / test set) containing `set_size` traces
-- 
2.43.0


From 76c235e460e2e82a8be1677f30d5a2f7f1ee14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 35/74] fix: Set crashed if the first sequence contains one
 observation only

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b3f0452..fc1cd47 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,7 +34,7 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			if len(sequences[0]) > 1 and (type(sequences[0][1])== float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
 				self.type = 4 # timed CTMC
 			elif type(sequences[0][0])  == list:
 				self.type = 3 # GoHMM
-- 
2.43.0


From 6802064c9b6c3d3fee4a7de635d4f4b211099bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 36/74] fix: adding a Set to an empty Set changed the times to
 floats, which broke save/load and to_list

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index fc1cd47..f687aef 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -198,7 +198,7 @@ class Set:
 		for i in range(len(s2.sequences)):
 			if not s2.sequences[i] in self.sequences:
 				self.sequences.append(s2.sequences[i])
-				self.times = append(self.times, s2.times[i])
+				self.times = array(list(self.times)+[s2.times[i]])
 			else:
 				self.times[self.sequences.index(s2.sequences[i])] += s2.times[i]
 	
-- 
2.43.0


From ab483607c5f55d1d91634c03d95fc9f98d4063b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 37/74] fix: createMC, createMDP, createCTMC, createPCTMC and
 updateLabelling modified the lists given by the user

---
 jajapy/base/Base_MC.py | 2 +-
 jajapy/ctmc/CTMC.py    | 4 ++--
 jajapy/mc/MC.py        | 2 +-
 jajapy/mdp/MDP.py      | 2 +-
 jajapy/pctmc/PCTMC.py  | 7 ++++---
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a2a8ca3..f0bc536 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -48,7 +48,7 @@ class Base_MC(Model):
 			must be equal to the number of states.
 		""" 
 		if len(new_labels) == self.nb_states-1:
-			new_labels.append("init")
+			new_labels = new_labels+['init']
 		if 'init' in new_labels:
 			self.labelling = new_labels
 			self.alphabet = list(set(new_labels))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 6540d21..70134f7 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -496,8 +496,8 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
-	res = vstack((res,zeros(len(res))))
+	labelling = labelling+['init']
+	res =vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
 		res[-1][initial_state] = 1.0
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index a7834b0..328d5c7 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -335,7 +335,7 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 9b930a7..0c62b12 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -592,7 +592,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	for t in transitions:
 		res[states.index(t[0])][actions.index(t[1])][states.index(t[2])] = t[3]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
 	if type(initial_state) == int:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a378e51..95abff6 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -513,9 +513,10 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 	
-	labelling.append('init')
-	
-	states = [i[0] for i in transitions]+[i[1] for i in transitions]
+	labelling = labelling+['init']
+	transitions = list(transitions)
+
+	states= [i[0] for i in transitions]+[i[1] for i in transitions]
 	states += [i[0] for i in synchronous_transitions]+[i[2] for i in synchronous_transitions]
 	states = list(set(states))
 	states.sort()
-- 
2.43.0


From e8b47d1fe4af2dfc5c94fe2eca8142dfbe3f680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 38/74] fix: any initial distribution with a sum between 0.5
 and 1.5 was accepted

---
 jajapy/base/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index c3b31cb..4bfb48d 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -43,7 +43,7 @@ class Model:
 			self.initial_state = array([0.0 for i in range(self.nb_states)])
 			self.initial_state[initial_state] = 1.0
 		else:
-			if round(sum(initial_state)) != 1.0:
+			if round(sum(initial_state),3) != 1.0:
 				msg = "Error: the sum of initial_state should be 1.0, here it's"
 				msg+= str(sum(initial_state))
 				raise ValueError(msg)
-- 
2.43.0


From 9a801f8aac6bca62c1805cb99eb2a35282300e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 39/74] fix: loadCTMC, loadHMM and loadGoHMM built a wrong
 model or crashed on the files of other models

---
 jajapy/ctmc/CTMC.py   | 3 ++-
 jajapy/gohmm/GoHMM.py | 3 ++-
 jajapy/hmm/HMM.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 70134f7..aff2f9a 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -343,7 +343,8 @@ def loadCTMC(file_path: str) -> CTMC:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "CTMC":
-		print("ERROR: this file doesn't describe an CTMC: it describes a "+l)
+		f.close()
+		raise ValueError("ERROR: this file doesn't describe an CTMC: it describes a "+l)
 	labelling = literal_eval(f.readline()[:-1])
 	name = f.readline()[:-1]
 	initial_state = array(literal_eval(f.readline()[:-1]))
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 21e134a..d8567ac 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -208,7 +208,8 @@ def loadGoHMM(file_path: str) -> GoHMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "GoHMM":
-		print("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
+		f.close()
+		raise ValueError("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
 	name = f.readline()[:-1]
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 2b40bff..e74d762 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -169,7 +169,8 @@ def loadHMM(file_path: str) -> HMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "HMM":
-		print("ERROR: this file doesn't describe an HMM: it describes a "+l)
+		f.close()
+		raise ValueError("ERROR: this file doesn't describe an HMM: it describes a "+l)
 	alphabet = literal_eval(f.readline()[:-1])
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
-- 
2.43.0


From 805afb05cd53fb6eed6e2213d6ae3bb3ca5ddbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 40/74] fix: createGoHMM always crashed

---
 jajapy/gohmm/GoHMM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index d8567ac..1410520 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -318,9 +318,9 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	output = array((nb_states,nb_distributions,2))
+	output_matrix = zeros((nb_states,nb_distributions,2))
 	for s,ts in enumerate(output):
 		for i,t in enumerate(ts):
-			output[s,i][0] = t[0]
-			output[s,i][1] = t[1]
-	return GoHMM(matrix, output,initial_state,name)
+			output_matrix[s,i][0] = t[0]
+			output_matrix[s,i][1] = t[1]
+	return GoHMM(matrix, output_matrix,initial_state,name)
-- 
2.43.0


From 1a7dfa52cffba191d907c808406a69777a9c5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 41/74] fix: CTMCs given to Storm had wrong rates
 (probabilities flagged as rates), and so had the CTMCs coming from Storm

---
 jajapy/with_stormpy/model_converter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index ac7a3b4..a795f90 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -107,8 +107,6 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 						t_expr.append(t_val)
 					else:
 						matrix[c][dest] = t_expr.index(t_val)
-		if ty == 1 and not from_prism:
-			matrix[c] *= h.exit_rates[si]
 	
 	if add_init_state != None:
 		#matrix = vstack((matrix,matrix[add_init_state]))
@@ -251,10 +249,8 @@ def CTMCtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	transition_matrix = deepcopy(h.matrix)
 	e = array([h.e(s) for s in range(h.nb_states)])
-	transition_matrix /= e[:,newaxis]
-	transition_matrix =  st.build_sparse_matrix(transition_matrix)
+	transition_matrix =  st.build_sparse_matrix(h.matrix)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
 										  rate_transitions=True)
-- 
2.43.0


From 2f62fe60b0f1f49a7212e5169542fc1b7ac31012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 42/74] fix: the absorbing states of CTMCs and PCTMCs got a
 self-loop when loaded from a Prism file

---
 jajapy/with_stormpy/model_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index a795f90..b6f9460 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -80,6 +80,9 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 		else:
 			labelling[si] = '_'.join(list(temp))
 
+		if "deadlock" in s.labels and ty in [1,4]: # self-loop added by Storm
+			continue
+
 		for a in s.actions:
 			for t in a.transitions:
 				dest = t.column
-- 
2.43.0


From d46956c25126bbea7e210eb8e358265dccdbc367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 43/74] fix: MDPs given to Storm could execute unavailable
 actions, and the actions were mixed up in the MDPs coming from Storm or Prism

---
 jajapy/with_stormpy/model_converter.py | 52 +++++++++++++++++---------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index b6f9460..4fbf6c5 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -45,14 +45,9 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	
 	labelling = [None for _ in range(len(h.states))]
 	if ty == 2:
-		actions = []
-		for s in h.states:
-			for a in s.actions:
-				if len(actions_name) <= int(str(a)):
-					actions.append('a'+str(a))
-				else:
-					actions.append(actions_name[int(str(a))])
-		actions = list(set(actions))
+		choices = [_choicesName(h,s,actions_name) for s in h.states]
+		actions = [i for i in actions_name if any(i in c for c in choices)]
+		actions+= sorted(set(i for c in choices for i in c if not i in actions))
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
@@ -88,7 +83,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 				dest = t.column
 				t_val = t.value()
 				if ty == 2:
-					matrix[c][int(str(a))][dest] = t_val
+					matrix[c][actions.index(choices[si][int(str(a))])][dest] = t_val
 				elif ty == 1 or ty == 0:
 					matrix[c][dest] = t_val
 				else:
@@ -139,6 +134,16 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	elif ty == 4:
 		return PCTMC(matrix,labelling,t_expr,p_v,p_i,p_str)
 
+def _choicesName(h,s,actions_name):
+	# names of the choices available in state s.
+	res = []
+	for i,a in enumerate(s.actions):
+		name = '_'.join(sorted(a.labels)) if h.has_choice_labeling() else ''
+		if name == '' or name in res:
+			name = actions_name[i] if i < len(actions_name) else 'a'+str(i)
+		res.append(name)
+	return res
+
 def jajapyModeltoStormpy(h):
 	"""
 	Given a jajapy.MC, a jajapy.CTMC, a jajapy.MDP or an instantiated
@@ -195,16 +200,21 @@ def MDPtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	nb_actions = len(h.getActions())
-	transition_matrix = h.matrix
-	transition_matrix = reshape(transition_matrix.flatten(),(h.nb_states*nb_actions,h.nb_states))
-	transition_matrix =  st.build_sparse_matrix(transition_matrix,[nb_actions*i for i in range(h.nb_states)])
-	choice_labelling = st.storage.ChoiceLabeling(h.nb_states*nb_actions)
-	for ia,a in enumerate(h.getActions()):
+	# only the available actions are choices in Storm
+	choices = []
+	first_choices = []
+	for s in range(h.nb_states):
+		first_choices.append(len(choices))
+		choices += [(s,ia) for ia in range(len(h.actions)) if (h.matrix[s,ia] != 0.0).any()]
+	transition_matrix = array([h.matrix[s,ia] for s,ia in choices])
+	transition_matrix =  st.build_sparse_matrix(transition_matrix,first_choices)
+	choice_labelling = st.storage.ChoiceLabeling(len(choices))
+	for a in h.actions:
 		choice_labelling.add_label(a)
-		choice_labelling.add_label_to_choice(a,ia)
+	for ic,(_,ia) in enumerate(choices):
+		choice_labelling.add_label_to_choice(h.actions[ia],ic)
 	reward_models = {}
-	action_reward = [-1.0 for _ in range(len(transition_matrix))]
+	action_reward = [-1.0 for _ in range(len(choices))]
 	reward_models["nb_executed_actions"] = st.SparseRewardModel(optional_state_action_reward_vector = action_reward)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
@@ -312,7 +322,13 @@ def loadPrism(path: str):
 	except RuntimeError:
 		prism_program = st.parse_prism_program(path,True)
 	try:
-		stormpy_model = st.build_model(prism_program)
+		if prism_program.model_type == st.PrismModelType.MDP: # we need the name of the actions
+			options = st.BuilderOptions()
+			options.set_build_all_labels()
+			options.set_build_choice_labels()
+			stormpy_model = st.build_sparse_model_with_options(prism_program,options)
+		else:
+			stormpy_model = st.build_model(prism_program)
 	except RuntimeError:
 		stormpy_model = st.build_parametric_model(prism_program)
 
-- 
2.43.0


From f5e58db3be81f40fb297ffa349cf425074636ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 44/74] fix: Alergia and IOAlergia crashed with
 output_file_prism

---
 jajapy/mc/Alergia.py    | 2 +-
 jajapy/mdp/IOAlergia.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 0f915c3..3350f4e 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -215,7 +215,7 @@ class Alergia:
 			stormpy_output = False
 		
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d26bec4..2f03f1e 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -553,7 +553,7 @@ class IOAlergia:
 
 
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 		
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From 4af6724f9278e15990b1e9137444ffc52a661088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 45/74] fix: IOAlergia gave the transitions of an action to
 another one if some action is not available in a state

---
 jajapy/mdp/IOAlergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2f03f1e..d8ec552 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -407,7 +407,9 @@ class IOFPTA:
 		transitions = zeros((len(states)+1,len(actions),len(states)+1))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
-			for ai,a in enumerate([a for a in actions if s.actionAllowed(a)]):
+			for ai,a in enumerate(actions):
+				if not s.actionAllowed(a):
+					continue
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-- 
2.43.0


From 121f530fb2318f47fa1894b7f968d4bbe112d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 46/74] fix: IOAlergia forgot the frequencies of the merged
 transitions

---
 jajapy/mdp/IOAlergia.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d8ec552..978940b 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -99,6 +99,22 @@ class IOFPTA_state:
 			self.transitions[action][0].append(prob)
 			self.transitions[action][1].append(state)
 
+	def transitionInc(self, action: str, state: int, count: int) -> None:
+		"""
+		Add `count` to the frequency of the transition executing `action` to
+		`state`.
+
+		Parameters
+		----------
+		action : str
+			An action.
+		state : int
+			State ID.
+		count : int
+			The frequency to add.
+		"""
+		self.transitions[action][0][self.transitions[action][1].index(state)] += count
+
 	def transitionChange(self, action: str, old_state: int, new_state: int) -> None:
 		"""
 		Change the destination state of a given transition.
@@ -346,8 +362,8 @@ class IOFPTA:
 				if succ2 != None:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
+						self.states[s1].transitionInc(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						self.merge(succ1,succ2)
-						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
 						#self.states[succ2].counter = 0 #useless but meaningfull
 					else:
-- 
2.43.0


From bf0dbe5d6e9b94f1b6be9ea4a4850b0aba37458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 47/74] fix: the model learned by IOAlergia had two initial
 states, and only one action available in the second one

---
 jajapy/mdp/IOAlergia.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 978940b..626bd6d 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -419,8 +419,10 @@ class IOFPTA:
 
 		actions = self.actions
 		states = red
-		labelling = [self.states[i].observation for i in states]+['init']
-		transitions = zeros((len(states)+1,len(actions),len(states)+1))
+		labelling = [self.states[i].observation for i in states]
+		if not 'init' in labelling: # the traces do not start with 'init'
+			labelling.append('init')
+		transitions = zeros((len(labelling),len(actions),len(labelling)))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
 			for ai,a in enumerate(actions):
@@ -429,7 +431,8 @@ class IOFPTA:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-		transitions[-1][0][0] = 1.0
+		if labelling[-1] == 'init' and len(labelling) > len(states):
+			transitions[-1,:,0] = 1.0
 		return MDP(transitions, labelling, actions)
 
 
-- 
2.43.0


From 7d711acbdb3ad77ecea8dd904336455b2bd42e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 48/74] fix: createGoHMM did not support the format used for
 the emissions of the HMMs

---
 jajapy/gohmm/GoHMM.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 1410520..ca94982 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -313,8 +313,10 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	"""
 	states = list(set([i[0] for i in transitions]+[i[1] for i in transitions]))
 	states.sort()
-	nb_distributions = len(output[0])
 	nb_states = len(states)
+	if not hasattr(output[0][0],'__len__'): # list of tuples (state ID, mu, sigma)
+		output = [[t[1:] for t in output if t[0] == s] for s in states]
+	nb_distributions = len(output[0])
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-- 
2.43.0


From 254437da875bbaaecb5b4e9e93d16c0d4efc4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 49/74] fix: CTMC/PCTMC.logLikelihood ignored the timed traces
 with a loglikelihood of exactly 0, and returned -9999 if it was the only
 possible one

---
 jajapy/ctmc/CTMC.py   | 5 ++---
 jajapy/pctmc/PCTMC.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index aff2f9a..2c8b2b9 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -256,11 +256,10 @@ class CTMC(Base_MC):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks if res.get() is not False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+				temp = [i for i in temp if i is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 95abff6..7e48805 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -367,10 +367,10 @@ class PCTMC(Parametric_Model):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks if res.get() is not False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				temp = [i for i in temp if i != False]
+				temp = [i for i in temp if i is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From 5a47f2994ca5ea2f81c7dd0f595168b804ca9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 50/74] fix: a deterministic MDP_random with a given seed
 differed from one interpreter to another

---
 jajapy/mdp/MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 0c62b12..568b5f7 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -511,7 +511,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(set(labelling))
+	alphabet = list(dict.fromkeys(labelling))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
-- 
2.43.0


From bc64756a5c62cab1d1d1aabb39b9f784794802f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 51/74] fix: a Set built with multiplicities changed the list
 it was given when another Set was added to it

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index f687aef..78fb707 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -44,7 +44,7 @@ class Set:
 		if type(times) == type(None):
 			self.setFromList(sequences)
 		else:
-			self.sequences = sequences
+			self.sequences = list(sequences)
 			self.times = array(times)
 	
 	def save(self,file_path: str) -> None:
-- 
2.43.0


From 8ec4eb9ec29472cd75cc9e6a1e5fcf82bc7a5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 52/74] fix: a set of timed traces starting with a trace
 without any dwell time was considered as non-timed

---
 jajapy/base/Model.py            | 2 +-
 jajapy/base/Parametric_Model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 4bfb48d..5ae932c 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -195,7 +195,7 @@ class Model:
 			else:
 				val[seq.index(trace)] += 1
 
-		return Set(seq,val)
+		return Set(seq,val,4 if timed else None)
 
 
 	def __str__(self) -> str:
diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 0ccea98..210d091 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -434,7 +434,7 @@ class Parametric_Model(Model):
 			else:
 				val[seq.index(trace)] += 1
 
-		return Set(seq,val)
+		return Set(seq,val,4 if timed else None)
 
 	def _save(self, f) -> None:
 		f.write(self.name)
-- 
2.43.0


From 8c2d32ceb7fbe1e24d7ffddf0e91d35734cf6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 53/74] fix: BW failed on traces of one observation for CTMCs
 and PCTMCs, and took traces with numpy dwell times for non-timed ones

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index a1e32fd..93b127f 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -701,7 +701,7 @@ class BW:
 			a tuple containing a sequence of observations and a sequence of
 			waiting times.
 		"""
-		if type(sequence[1]) == float and type(sequence[0]) == str:
+		if self.training_set.type == 4:
 			times_seq = [sequence[i] for i in range(1,len(sequence),2)]
 			obs_seq   = [sequence[i] for i in range(0,len(sequence),2)]
 		else:
-- 
2.43.0


From bfd2959e2d346090ab118fd3d98f855552907c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 54/74] fix: a list of timed traces starting with a trace of
 one observation was considered as non-timed

---
 jajapy/base/Set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 78fb707..54c6f16 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,7 +34,8 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if len(sequences[0]) > 1 and (type(sequences[0][1])== float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			long = [s for s in sequences if len(s) > 1]
+			if len(long) > 0 and (type(long[0][1])== float64 or type(long[0][1])  == float) and type(long[0][0])  == str:
 				self.type = 4 # timed CTMC
 			elif type(sequences[0][0])  == list:
 				self.type = 3 # GoHMM
-- 
2.43.0


From c452aff1bb0cb570d77338c7538c6c27e94cc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 55/74] fix: BW for GoHMMs and CTMCs set to 0 all the
 transitions of the very unlikely states

---
 jajapy/base/BW.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 93b127f..e1da603 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -726,7 +726,7 @@ class BW:
 		else:
 			den = (alpha_matrix[:,:-1]*beta_matrix[:,:-1]*times/proba_seq).sum(axis=1)
 
-		num = zeros(shape=(self.nb_states,self.nb_states))	
+		num = zeros(shape=(self.nb_states,self.nb_states),dtype=den.dtype)
 		for s in range(self.nb_states):
 			for ss in range(self.nb_states):
 				if not self.fixed_parameters[s,ss]:
@@ -823,9 +823,9 @@ class BW:
 		proba_seq = alpha_matrix.T[-1].sum()
 		if proba_seq != 0.0:
 			den = (alpha_matrix.T[:-1]*beta_matrix.T[:-1]*times/proba_seq).sum(axis=0)
-			num_a  = zeros(shape=(self.nb_states,self.nb_states))
-			num_mu = zeros(shape=(self.nb_states,self.nb_distr))
-			num_va = zeros(shape=(self.nb_states,self.nb_distr))
+			num_a  = zeros(shape=(self.nb_states,self.nb_states),dtype=longdouble)
+			num_mu = zeros(shape=(self.nb_states,self.nb_distr),dtype=longdouble)
+			num_va = zeros(shape=(self.nb_states,self.nb_distr),dtype=longdouble)
 			for s in range(self.nb_states):
 				num_mu[s] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*sequence.T,times/proba_seq).sum(axis=1)
 				num_va[s] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*(sequence-self.h.mu(s)).T**2,times/proba_seq).sum(axis=1)
-- 
2.43.0


From 52ec4bb53bbfb6a087c9842d04ac2d066495c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 56/74] fix: BW for PCTMCs failed or gave complex values to the
 parameters used with several exponents

---
 jajapy/base/BW.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index e1da603..74d11d2 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1202,7 +1202,10 @@ class BW:
 
 		for p in range(len(terms_cat3[0])):
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
-			values.append(max(polyroots(temp)))
+			if (temp[1:] == 0.0).all(): # the states using this parameter are never visited
+				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
+			else: # the only positive root
+				values.append(max(r.real for r in polyroots(temp) if r.imag == 0.0))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From 012a888bb2609f9b9cc03e3ca6614ff621f8f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 57/74] fix: BW for PCTMCs on non-timed traces decreased the
 likelihood when a state has constant and parametric rates

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 74d11d2..2c1e6ee 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1101,7 +1101,7 @@ class BW:
 						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
+						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
 					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
-- 
2.43.0


From 2ac4cfa4ddd740f6ffd1eb708c5f31516369ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 58/74] fix: BW for PCTMCs failed when the expected counts of a
 parameter with several exponents have very different magnitudes

---
 jajapy/base/BW.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 2c1e6ee..9049f43 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1,6 +1,5 @@
 from sys import platform
 from multiprocessing import cpu_count, Pool
-from numpy.polynomial.polynomial import polyroots
 from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty
 from math import exp
 from time import perf_counter
@@ -1204,12 +1203,27 @@ class BW:
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
 			if (temp[1:] == 0.0).all(): # the states using this parameter are never visited
 				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
-			else: # the only positive root
-				values.append(max(r.real for r in polyroots(temp) if r.imag == 0.0))
+			else:
+				values.append(self._positiveRoot(temp))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
 
+	def _positiveRoot(self,coefs) -> float:
+		# the first coefficient is negative and the others are positive:
+		# the polynomial is increasing and it has only one positive root.
+		terms = [(c,x) for c,x in enumerate(coefs) if x != 0.0]
+		low, high = 0.0, 1.0
+		while sum(x*high**c for c,x in terms) < 0.0 and high < 1e100:
+			low, high = high, 2.0*high
+		while low < (low+high)/2 < high:
+			mid = (low+high)/2
+			if sum(x*mid**c for c,x in terms) < 0.0:
+				low = mid
+			else:
+				high = mid
+		return high
+
 	def fit_nonInstantiatedParameters(self, traces, initial_model,
 			epsilon: float=0.01, max_it: int= inf,
 			pp: str='', verbose: bool = True, return_data: bool = False,
-- 
2.43.0


From f21ffaa180f0d5133a9a7e5a79738beb64c0c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 59/74] fix: Alergia ignored most of the labels while comparing
 the successors of two states

---
 jajapy/mc/Alergia.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 3350f4e..09cea6f 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -44,7 +44,7 @@ class PTA_node:
 class PTA:
 	def __init__(self,traces) -> None:
 		self.root = PTA_node('')
-		self.alphabet = []
+		self.alphabet = traces.getAlphabet()
 		traces.sort()
 		
 		for trace,time in zip(traces.sequences,traces.times):
@@ -52,8 +52,6 @@ class PTA:
 			curr = 0
 			while curr < len(trace):
 				char = trace[curr]
-				if not char in self.alphabet:
-					self.alphabet.append(char)
 				nnext = node.incKid(char,time)
 				if nnext == None:
 					node = self.addKids(node,trace,curr,time)
-- 
2.43.0


From c4aa1c6a90c362edea2d4c291c098144d5719362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 60/74] fix: Active_BW_MDP with lr='dynamic' gave negative
 probabilities if a sample is larger than the training set

---
 jajapy/mdp/Active_BW_MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index aa57f36..1109109 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -239,7 +239,7 @@ class Active_BW_MDP(BW):
 				counter += info['learning_rounds']
 			else:
 				if lr == "dynamic":
-					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
+					lr_it = sum(traces.times)/sum(total_traces.times)
 				else:
 					lr_it = lr
 				old_h = deepcopy(self.h)
-- 
2.43.0


From 7dc6e9a5de1909924f0aa85453e414842d774b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 61/74] fix: the parameters of PCTMCs named like objects of
 Sympy (beta, gamma, E, I, S, N...) were not recognised

---
 jajapy/base/Parametric_Model.py        | 23 +++++++++++++++++++++--
 jajapy/pctmc/PCTMC.py                  |  6 +++---
 jajapy/with_stormpy/model_converter.py |  3 ++-
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 210d091..155601f 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,7 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify
+from sympy import sympify, Symbol
 
 class Parametric_Model(Model):
 	"""
@@ -463,6 +463,25 @@ class Parametric_Model(Model):
 		elif s >= self.nb_states:
 			raise IndexError('This model contains only '+str(self.nb_states)+' states')
 
+def parseExpression(expression, parameter_str: list):
+	"""
+	Returns the symbolic representation of `expression`, in which the names in
+	`parameter_str` are parameters, even if Sympy gives them another meaning
+	(e.g. `beta`, `gamma`, `E`, `I`, `S` or `N`).
+
+	Parameters
+	----------
+	expression : str, float or symbolic representation
+		The expression to parse.
+	parameter_str : list of str
+		The names of the parameters.
+
+	Returns
+	-------
+	symbolic representation
+	"""
+	return sympify(expression, locals={p: Symbol(p) for p in parameter_str})
+
 def loadParametricModel(f):
 	"""
 	Used by the inherited classes.
@@ -475,5 +494,5 @@ def loadParametricModel(f):
 	parameter_indexes = literal_eval(f.readline()[:-1])
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
-	transition_expr = [sympify(i) for i in transition_expr]
+	transition_expr = [parseExpression(i,parameter_str) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 7e48805..04ff7bb 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -540,7 +540,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	matrix = zeros((nb_states,nb_states),dtype='uint16')
 	for t in transitions:
 		val = str(t[2])
-		expr = sympify(val)
+		expr = parseExpression(val,parameter_str)
 		if expr == 0:
 			matrix[t[0],t[1]] = 0
 		elif expr.is_real or not expr in transition_expr:
@@ -707,8 +707,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		add_in_matrix(trans_expr.index(expr),i,j,model,add_index)
 	
 	def add_sync_transition(a,s1, d1, expr1, s2, d2, expr2):
-		expr1 = sympify(expr1)
-		expr2 = sympify(expr2)
+		expr1 = parseExpression(expr1,m1.parameter_str)
+		expr2 = parseExpression(expr2,m2.parameter_str)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
 			if not p.name in p_str:
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 4fbf6c5..d94375e 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -7,6 +7,7 @@ from ..pctmc.PCTMC import PCTMC
 from copy import deepcopy
 import os
 from sympy import symbols, sympify
+from ..base.Parametric_Model import parseExpression
 
 def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	"""
@@ -99,7 +100,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 							p_i.append([])
 							p_v[v] = nan
 						p_i[p_str.index(v)].append([c,dest])
-					t_val = sympify(str(t_val))
+					t_val = parseExpression(str(t_val),[v.name for v in ps])
 					if t_val.is_real or not t_val in t_expr:
 						matrix[c][dest] = len(t_expr)
 						t_expr.append(t_val)
-- 
2.43.0


From 517038834ad7d60eee0f121aa108da9df6768e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 62/74] fix: Alergia and IOAlergia exceeded the recursion limit
 on long traces

---
 jajapy/mc/Alergia.py    | 25 ++++++++++++++++++++++---
 jajapy/mdp/IOAlergia.py | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 09cea6f..eaaa3f0 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -70,6 +70,15 @@ class PTA:
 		return n
 
 	def compatible(self,s1,s2,alpha):
+		# not recursive: the traces can be longer than the recursion limit.
+		todo = [(s1,s2)]
+		while len(todo) > 0:
+			if not self._compatibleNodes(*todo.pop(),alpha,todo):
+				return False
+		return True
+
+	def _compatibleNodes(self,s1,s2,alpha,todo):
+		# compares s1 and s2, the successors still to be compared are added to todo.
 		if s1 == None or s2 == None:
 			return True
 		
@@ -97,8 +106,7 @@ class PTA:
 			if not hoeffdingBound(f1,n1,f2,n2,alpha):
 				return False
 		for char in self.alphabet:
-			if not self.compatible(s1.findKid(char),s2.findKid(char),alpha):
-				return False
+			todo.append((s1.findKid(char),s2.findKid(char)))
 		return True
 		
 	def merge(self,s1,s2):
@@ -107,6 +115,17 @@ class PTA:
 		self.fold(s1,s2)
 
 	def fold(self,s1,s2):
+		# not recursive: the traces can be longer than the recursion limit.
+		stack = [self._foldKids(s1,s2)]
+		while len(stack) > 0:
+			kids = next(stack[-1],None)
+			if kids == None:
+				stack.pop()
+			else:
+				stack.append(self._foldKids(*kids))
+
+	def _foldKids(self,s1,s2):
+		# yields the pairs of kids to fold.
 		for (k2,c) in s2.kids:
 			k1 = s1.findKid(k2.label)
 			if k1 == None:
@@ -115,7 +134,7 @@ class PTA:
 			else:
 				k1.count += k2.count
 				s1.incKid(k1,c)
-				self.fold(k1,k2)
+				yield k1,k2
 
 	def pprint(self):
 		print(self.toMC())
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 626bd6d..77af0eb 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -257,6 +257,15 @@ class IOFPTA:
 		bool
 			True if s1 and s2 are epsilon compatible.
 		"""
+		# not recursive: the traces can be longer than the recursion limit.
+		todo = [(s1,s2)]
+		while len(todo) > 0:
+			if not self._compatibleStates(*todo.pop(),epsilon,todo):
+				return False
+		return True
+
+	def _compatibleStates(self, s1: int, s2: int, epsilon: float, todo: list) -> bool:
+		# compares s1 and s2, the successors still to be compared are added to todo.
 		if s1 == None or s2 == None:
 			return True
 		
@@ -267,8 +276,7 @@ class IOFPTA:
 			for o in self.observations:
 				if not self.hoeffding(s1, s2, a, o, epsilon):
 					return False
-				if not self.compatible(self.successor(s1, a, o), self.successor(s2, a, o), epsilon):
-					return False
+				todo.append((self.successor(s1, a, o), self.successor(s2, a, o)))
 		return True
 				
 	def hoeffding(self, s1: int, s2: int, a: str, o: str, epsilon: float) -> bool:
@@ -345,6 +353,17 @@ class IOFPTA:
 		s2 : int
 			A state ID.
 		"""
+		# not recursive: the traces can be longer than the recursion limit.
+		stack = [self._mergeStates(s1,s2)]
+		while len(stack) > 0:
+			succ = next(stack[-1],None)
+			if succ == None:
+				stack.pop()
+			else:
+				stack.append(self._mergeStates(*succ))
+
+	def _mergeStates(self, s1: int, s2: int):
+		# merges s2 into s1, yields the pairs of successors to merge.
 		#action = self.states[s2].label[-2]
 		if s1 == None or s2 == None:
 			return None
@@ -363,7 +382,7 @@ class IOFPTA:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
 						self.states[s1].transitionInc(a,succ1,self.states[s2].getTransitionProb(a,succ2))
-						self.merge(succ1,succ2)
+						yield succ1,succ2
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
 						#self.states[succ2].counter = 0 #useless but meaningfull
 					else:
-- 
2.43.0


From 8eaf362c1137d0804ef388b6c2037dbe31a92727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 63/74] fix: updateLabelling kept the former initial state when
 'init' moves, and accepted labellings of any length

---
 jajapy/base/Base_MC.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index f0bc536..936f080 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -1,5 +1,5 @@
 from .Model import Model, MC_ID, MDP_ID, CTMC_ID
-from numpy import ndarray, where
+from numpy import array, ndarray, where
 from random import choices, seed
 
 class Base_MC(Model):
@@ -49,9 +49,13 @@ class Base_MC(Model):
 		""" 
 		if len(new_labels) == self.nb_states-1:
 			new_labels = new_labels+['init']
-		if 'init' in new_labels:
+		if len(new_labels) != self.nb_states:
+			print("The length of new_labels ("+str(len(new_labels))+") is not equal to the number of states("+str(self.nb_states)+")")
+			print("The labels have not been updated.")
+		elif 'init' in new_labels:
 			self.labelling = new_labels
 			self.alphabet = list(set(new_labels))
+			self.initial_state = array([1.0/new_labels.count("init") if i=='init' else 0.0 for i in new_labels])
 		else:
 			print("No initial state given: at least one state must be labelled by 'init'.")
 			print("The labels have not been updated.")
-- 
2.43.0


From 1528dc309e9b537290604c7b0faeb61b5e904144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 64/74] fix: the rates of PCTMCs with more than 65535
 transitions were mixed up

---
 jajapy/ctmc/CTMC.py                    | 6 +++---
 jajapy/pctmc/PCTMC.py                  | 8 ++++----
 jajapy/with_stormpy/model_converter.py | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 2c8b2b9..78fd6e1 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -534,7 +534,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint16')
+	matrix= zeros((nb_states,nb_states),dtype='uint32')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -595,8 +595,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint32')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint32')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 04ff7bb..eaeb30d 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -537,7 +537,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	parameter_indexes = [[] for _ in parameter_str]
 	transition_expr = [sympify('0.0')]
 
-	matrix = zeros((nb_states,nb_states),dtype='uint16')
+	matrix = zeros((nb_states,nb_states),dtype='uint32')
 	for t in transitions:
 		val = str(t[2])
 		expr = parseExpression(val,parameter_str)
@@ -661,7 +661,7 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint16')
+	matrix= zeros((nb_states,nb_states),dtype='uint32')
 	labelling = []
 	p_v = {**m2.parameter_values, **m1.parameter_values}
 	p_str = list(set(m1.parameter_str+m2.parameter_str))
@@ -743,8 +743,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				sync_trans.append(add_sync_transition(ai,si,di,pi,sj,dj,pj))
 				
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint32')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint32')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.transitionValue(i,j) for j in m1_sids]
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index d94375e..f9a4ead 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -53,7 +53,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
 	elif ty == 3 or ty == 4:
-		matrix = zeros((len(h.states),len(h.states)),dtype='uint16')
+		matrix = zeros((len(h.states),len(h.states)),dtype='uint32')
 		p_str = []
 		p_v = {}
 		p_i = []
@@ -118,11 +118,11 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 			matrix[-1][add_init_state] = 1.0
 			matrix = hstack((matrix,zeros(len(matrix))[:,newaxis]))
 		else:
-			matrix = vstack((matrix,zeros((matrix.shape[0]),dtype='uint16')))
+			matrix = vstack((matrix,zeros((matrix.shape[0]),dtype='uint32')))
 			t_val = sympify('1.0')
 			matrix[-1][add_init_state] = len(t_expr)
 			t_expr.append(t_val)
-			matrix = hstack((matrix,zeros(len(matrix),dtype=('uint16'))[:,newaxis]))
+			matrix = hstack((matrix,zeros(len(matrix),dtype=('uint32'))[:,newaxis]))
 
 	if ty == 0:
 		return MC(matrix, labelling)
-- 
2.43.0


From ce23768b4377c586c6b9a7f04a5f7f52a57cd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 65/74] fix: the actions of MDPs coming from Storm or Prism
 with an unnamed choice and a choice named like it were merged

---
 jajapy/with_stormpy/model_converter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index f9a4ead..5353336 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -137,12 +137,12 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 
 def _choicesName(h,s,actions_name):
 	# names of the choices available in state s.
-	res = []
-	for i,a in enumerate(s.actions):
-		name = '_'.join(sorted(a.labels)) if h.has_choice_labeling() else ''
-		if name == '' or name in res:
-			name = actions_name[i] if i < len(actions_name) else 'a'+str(i)
-		res.append(name)
+	res = ['_'.join(sorted(a.labels)) if h.has_choice_labeling() else '' for a in s.actions]
+	res = [n if not n in res[:i] else '' for i,n in enumerate(res)]
+	for i in range(len(res)):
+		if res[i] == '': # a name which is not used in this state
+			names = actions_name[i:i+1]+['a'+str(j) for j in range(i,i+len(res)+1)]
+			res[i] = [n for n in names if not n in res][0]
 	return res
 
 def jajapyModeltoStormpy(h):
-- 
2.43.0


From 1b89f5e852b000c239a0b3ceff1710d858c87298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 66/74] fix: BW learned the constant rates used by several
 transitions from the first one only

---
 jajapy/base/BW.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 9049f43..d92efc3 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1093,15 +1093,15 @@ class BW:
 			den_cste = ones(len(num_cste))
 			for itrans,trans in enumerate(self.h.transition_expr[1:]):
 				if trans.is_real:
-					s,ss = where(self.h.matrix == itrans+1)
-					s,ss = s[0],ss[0]
-					if timed:
-						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
-					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
-					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
+					num_cste[itrans+1], den_cste[itrans+1] = 0.0, 0.0
+					for s,ss in zip(*where(self.h.matrix == itrans+1)): # several ones in compositions
+						if timed:
+							p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
+							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
+						else:
+							p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
+						num_cste[itrans+1] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
 			num_cste = None
-- 
2.43.0


From 14abd0d206219c91d7fb951346d2db55cbf5f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 67/74] fix: BW for PCTMCs gave NaN to the parameters once one
 of them is 0

---
 jajapy/base/BW.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index d92efc3..e08e2f2 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1095,6 +1095,8 @@ class BW:
 				if trans.is_real:
 					num_cste[itrans+1], den_cste[itrans+1] = 0.0, 0.0
 					for s,ss in zip(*where(self.h.matrix == itrans+1)): # several ones in compositions
+						if self.hval[s,ss] == 0.0: # never used, and s may be absorbing
+							continue
 						if timed:
 							p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 							den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
@@ -1129,6 +1131,8 @@ class BW:
 		for iparam,param in enumerate(self.parameters_cat[1]):
 			p_index = self.h.parameter_str.index(param)
 			for s,ss in self.h.parameterIndexes(param):
+				if self.hval[s,ss] == 0.0: # never used, and s may be absorbing
+					continue
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
@@ -1142,6 +1146,8 @@ class BW:
 			p_index = self.h.parameter_str.index(param)
 			temp = [0.0]
 			for s,ss in self.h.parameterIndexes(param):
+				if self.hval[s,ss] == 0.0: # never used, and s may be absorbing
+					continue
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
@@ -1212,6 +1218,8 @@ class BW:
 	def _positiveRoot(self,coefs) -> float:
 		# the first coefficient is negative and the others are positive:
 		# the polynomial is increasing and it has only one positive root.
+		if coefs[0] == 0.0: # the parameter is never used
+			return 0.0
 		terms = [(c,x) for c,x in enumerate(coefs) if x != 0.0]
 		low, high = 0.0, 1.0
 		while sum(x*high**c for c,x in terms) < 0.0 and high < 1e100:
-- 
2.43.0


From df9d90ebbb15dffebaea088a5d9f417387a9c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 68/74] fix: the numbers of the rate expressions were saved
 with 15 digits only

---
 jajapy/base/Parametric_Model.py | 29 ++++++++++++++++++++++++++---
 jajapy/pctmc/PCTMC.py           |  2 +-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 155601f..5286ae0 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,8 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify, Symbol
+from sympy import sympify, Symbol, Float
+from sympy.printing.str import StrPrinter
 
 class Parametric_Model(Model):
 	"""
@@ -449,7 +450,7 @@ class Parametric_Model(Model):
 		f.write('\n')
 		f.write(str(self.parameter_str))
 		f.write('\n')
-		f.write(str([str(i) for i in self.transition_expr]))
+		f.write(str([expressionToString(i) for i in self.transition_expr]))
 		f.write('\n')
 		f.close()
 
@@ -480,7 +481,29 @@ def parseExpression(expression, parameter_str: list):
 	-------
 	symbolic representation
 	"""
-	return sympify(expression, locals={p: Symbol(p) for p in parameter_str})
+	names = {p: Symbol(p) for p in parameter_str}
+	names.setdefault('Float', lambda x: Float(float(x))) # the numbers are read as floats, whatever their length
+	return sympify(expression, locals=names)
+
+def expressionToString(expression) -> str:
+	"""
+	Returns a string from which `parseExpression` gives exactly `expression` back:
+	`str` only keeps 15 digits of the numbers.
+
+	Parameters
+	----------
+	expression : symbolic representation
+		The expression to write.
+
+	Returns
+	-------
+	str
+	"""
+	return _ExpressionPrinter().doprint(expression)
+
+class _ExpressionPrinter(StrPrinter):
+	def _print_Float(self,expr):
+		return repr(float(expr))
 
 def loadParametricModel(f):
 	"""
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index eaeb30d..2a80bad 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -416,7 +416,7 @@ class PCTMC(Parametric_Model):
 			if (self.matrix[s1]!=0).any():
 				res = '\t[] s='+str(s1)+' ->'
 				for s2 in where(self.matrix[s1] != 0)[0]:
-					t = str(self.transition_expr[self.matrix[s1,s2]])
+					t = expressionToString(self.transition_expr[self.matrix[s1,s2]])
 					t = t.replace('**','^')
 					res += ' '+t+" : (s'="+str(s2)+") +"
 				res = res[:-2]+';\n'
-- 
2.43.0


From 8ff04fede1d5200773a230b813eaece2f49f67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 69/74] fix: the alphabet of compositions of PCTMCs contained
 labels of removed states

---
 jajapy/pctmc/PCTMC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2a80bad..947cca5 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -598,6 +598,7 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 							k += 1
 				i = -1
 			i += 1
+		m.alphabet = list(set(m.labelling))
 
 	def removeUnusedTrans(m):
 		to_remove = list(set(range(len(m.transition_expr))) - set(m.matrix.flatten()) )
-- 
2.43.0


From c1bad77f8cbc26c95d3476ff7a8f96d7546fb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 70/74] fix: a BW object which had learned one kind of model
 could not learn another one

---
 jajapy/base/BW.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index e08e2f2..a7e39bd 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -177,6 +177,7 @@ class BW:
 			stormpy_output: bool = True,fixed_parameters: ndarray = False,
 			update_constant :bool = True, min_val: float = None, max_val: float = None):	
 
+		self._resetMethods()
 		self._getInitialModel(initial_model,nb_states)
 		self._getTrainingSet(training_set)
 		if self.h == None:
@@ -276,6 +277,15 @@ class BW:
 		
 		return stormpy_output
 
+	def _resetMethods(self):
+		"""
+		Forgets the methods selected by a previous call to `fit` or
+		`fit_parameters`, which depend on the kind of model and of traces.
+		"""
+		for name in ['_h_tau','_h_e','_h_l','_computeTaus','_computeAlphas',
+					 '_computeBetas','_processWork','_update']:
+			self.__dict__.pop(name,None)
+
 	def _bw(self,max_it,pp,epsilon,output_file,output_file_prism,
 	 		verbose,stormpy_output,return_data):
 		progress_bar = self.verbose < 2
@@ -1356,6 +1366,7 @@ class BW:
 			- the dictionary described above,
 			- the `returned_data` (see parameter description).
 		"""
+		self._resetMethods()
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
-- 
2.43.0


From 52c702890c2022e16a01a5d82c028aeb257692d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 71/74] fix: (with one process) logLikelihood ignored the
 traces ending in a state without leaving transition

---
 jajapy/base/Model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 5ae932c..a6f2932 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -319,20 +319,22 @@ class Model:
 		"""
 		sequences.sort()
 		loglikelihood = 0.0
-		alpha_matrix = self._initAlphaMatrix(len(sequences.sequences[0]))
+		alpha_matrix = self._initAlphaMatrix(len(sequences.sequences[0])-1)
 		for seq in range(len(sequences.sequences)):
 			sequence = sequences.sequences[seq]
 			times = sequences.times[seq]
 			common = 0
 			if seq > 0:
-				while common < min(len(sequences.sequences[seq-1]),len(sequence)):
+				while common < min(len(sequences.sequences[seq-1]),len(sequence))-1:
 					if sequences.sequences[seq-1][common] != sequence[common]:
 						break
 					common += 1
 					
-			alpha_matrix = self._updateAlphaMatrix(sequence,common,alpha_matrix)
-			if alpha_matrix[-1].sum() > 0:
-				loglikelihood += log(alpha_matrix[-1].sum()) * times
+			# the state generating the last observation may have no leaving transition
+			alpha_matrix = self._updateAlphaMatrix(sequence[:-1],common,alpha_matrix)
+			last_arr = alpha_matrix[-1] * array([self.b(s,sequence[-1]) for s in range(self.nb_states)])
+			if last_arr.sum() > 0:
+				loglikelihood += log(last_arr.sum()) * times
 
 		return loglikelihood / sum(sequences.times)
 
-- 
2.43.0


From 6e67d0c4ab040fce7f03981bc4b2108a7bf67725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 72/74] fix: MDP.run never ended in a state without any action

---
 jajapy/mdp/MDP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 568b5f7..f595426 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -205,6 +205,8 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
+			if len(self.getActions(current)) == 0:
+				raise ValueError("No action is available in state "+str(current))
 			action = self._chooseAction(scheduler,current)
 
 			while action not in self.getActions(current):
-- 
2.43.0


From 2732ffcb2e8ed72366f467d70b7b3c79c9725282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 73/74] fix: BW could not learn from MCs with states without
 leaving transition (e.g. those learned by Alergia)

---
 jajapy/base/BW.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index a7e39bd..1f44d28 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1615,6 +1615,8 @@ class BW:
 			for s in range(self.nb_states):
 				p = array([self._h_tau(ss,s,sequence[k]) for ss in range(self.nb_states)],dtype=dtype)
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
+		for s in self._statesWithoutSuccessor():
+			alpha_matrix[-1,s] += alpha_matrix[-2,s]*self.h.b(s,sequence[-1])
 		return alpha_matrix.T
 
 	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
@@ -1677,6 +1679,7 @@ class BW:
 			array containing the beta values.
 		"""
 		len_seq = len(sequence)
+		without_successor = self._statesWithoutSuccessor()
 		init_arr = ones(self.nb_states)
 		zero_arr = zeros(shape=(len_seq*self.nb_states,))
 		beta_matrix = append(zero_arr,init_arr).reshape(len_seq+1,self.nb_states)
@@ -1688,8 +1691,25 @@ class BW:
 			for s in range(self.nb_states):
 				p = array([self._h_tau(s,ss,sequence[k]) for ss in range(self.nb_states)],dtype=dtype)
 				beta_matrix[k,s] = dot(beta_matrix[k+1],p)
+				if k == len_seq-1 and s in without_successor:
+					beta_matrix[k,s] = self.h.b(s,sequence[k])
 		return beta_matrix.T
 
+	def _statesWithoutSuccessor(self) -> list:
+		"""
+		Returns the states of the current hypothesis which can only generate
+		the last observation of a sequence, since they don't have any leaving
+		transition (e.g. in the MCs learned by Alergia).
+
+		Returns
+		-------
+		list of int
+			a list of state IDs.
+		"""
+		if self.type_model == MC_ID:
+			return where(self.h.matrix.sum(axis=1) == 0.0)[0].tolist()
+		return []
+
 	def _computeTaus(self):
 		pass
 	
-- 
2.43.0


From fc4856722f840b5c1a85181e275f10b4c73dfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 74/74] fix: createPCTMC shared the list of parameters with its
 caller

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 947cca5..9b3357d 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -532,7 +532,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	elif nb_states < len(labelling):
 		print("WARNING: the labelling list is bigger than the number of states")
 	
-	parameter_str = parameters
+	parameter_str = list(parameters)
 	parameter_values = {}
 	parameter_indexes = [[] for _ in parameter_str]
 	transition_expr = [sympify('0.0')]
-- 
2.43.0

