From a0ad246918e1720fda664b46633275a94815f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 01/55] fix: make the FSAL helpers in erk.hpp inline so several
 translation units can include it

---
 erk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffbdbeb..706385a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -227,7 +227,7 @@ vec_type project_b( double theta, const erk::solver_coeffs &sc );
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void apply_fsal(mat_type &Ks, std::size_t Ns)
+inline void apply_fsal(mat_type &Ks, std::size_t Ns)
 {
 	Ks.col(0) = std::move(Ks.col(Ns-1));
 }
@@ -239,7 +239,7 @@ void apply_fsal(mat_type &Ks, std::size_t Ns)
    \param Ks stage matrix
    \param Ns number of stages.
 */
-void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
+inline void no_apply_fsal_dummy(mat_type &Ks, std::size_t Ns)
 { }
 
 
-- 
2.43.0


From 2d61aa5a082e35c735c06201031ec873037682b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 02/55] fix: define verify_solver_options with the const
 signature the headers declare

---
 erk.cpp | 2 +-
 irk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index 89f0b20..ddf23c3 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -228,7 +228,7 @@ solver_options default_solver_options()
 }
 
 
-bool verify_solver_options(solver_options &opts)
+bool verify_solver_options(const solver_options &opts)
 {
 	return true;
 }
diff --git a/irk.cpp b/irk.cpp
index 6f03860..2a55903 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -697,7 +697,7 @@ solver_options default_solver_options()
 
 
 
-bool verify_solver_options( solver_options &opts )
+bool verify_solver_options( const solver_options &opts )
 {
 	if( opts.newton_opts ) return true;
 	std::cerr << "ERROR! solver_opts @" << &opts << " does not have "
-- 
2.43.0


From 68c854a983ea82f6bb6b7aaa5b896e5da29a86aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 03/55] fix: do not drop the LU decomposition of the stage
 Jacobi matrix when NDEBUG is set

---
 irk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index a7155c4..7b2e7c2 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -429,8 +429,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			// Since we re-use the same Jacobi matrix,
 			// pre-construct the LU decomposition:
 			if (PLU_decomposition) {
-				assert(arma::lu(L,U,P, J_Y) &&
+				bool lu_ok = arma::lu(L,U,P, J_Y);
+				assert(lu_ok &&
 				       "LU decomposition of Jacobi matrix failed!");
+				(void) lu_ok;
 			}
 			++jac_evals;
 		};
-- 
2.43.0


From c775f654b15f1a98a6ab0c22e5e2e62ffc28ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 04/55] fix: refresh_jac == 0 divided by zero in the IRK stage
 solver

---
 irk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 7b2e7c2..8b89e28 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -484,7 +484,8 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			step = 1.0 / sqrt(1.0 + Rnorm2);
 		}
 
-		if (stats.iters % refresh_jac == 0) {
+		// A refresh interval of 0 means never refresh.
+		if (refresh_jac > 0 && stats.iters % refresh_jac == 0) {
 			refresh_jacobi_matrix();
 		}
 	}
-- 
2.43.0


From d14134d06a417d5fca58c77002900e124823386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 05/55] fix: implicit methods without embedded pair or adaptive
 step size failed on a size mismatch

---
 irk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 8b89e28..d024781 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -601,7 +601,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	// Construct the alternative weights:
 	mat_type Ai = arma::inv(sc.A);
 	vec_type d_weights  = (Ai.t())*sc.b;
-	vec_type d2_weights = (Ai.t())*sc.b2;
+	// Methods without embedded pair have no error estimate, so for those
+	// both solutions are the same.
+	vec_type d2_weights = (Ai.t())*(sc.b2.size() > 0 ? sc.b2 : sc.b);
 
 
 	while (t < t1) {
@@ -698,9 +700,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		mat_type YYs = arma::reshape(Y, Neq, Ns);
 		delta_y = YYs*d_weights;
 
-		if (solver_opts.adaptive_step_size) {
-			delta_alt = YYs*d2_weights;
-		}
+		delta_alt = YYs*d2_weights;
 
 		vec_type dy_alt = gam * func.fun(t,y) + delta_alt;
 		++sol.count.fun_evals;
-- 
2.43.0


From 1042c86083ecdc1d0a6042e30f4968396de620d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 06/55] fix: the IRK integrator returned zeros instead of the
 stages

---
 irk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.hpp b/irk.hpp
index d024781..5b1dce2 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -829,6 +829,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				if (output_opts.store_in_vectors()) {
 					sol.t_vals.push_back(t);
 					sol.y_vals.push_back(y_n);
+					// The stages follow from Y = dt*kron(A,I)*K.
+					K_np = arma::vectorise(YYs*Ai.t()) / dt;
 					sol.stages.push_back(K_np);
 					sol.err_est.push_back( err_est );
 					sol.err.push_back( err );
-- 
2.43.0


From 4d2f20df7204b1a7c3e5eff9ddcc58a8be8f9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 07/55] fix: max_steps allowed one time step too many and
 counted an attempt that was not made

---
 erk.hpp | 4 ++--
 irk.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 706385a..c6690a3 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -332,14 +332,14 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
 
 		if (solver_opts.max_steps >= 0 &&
-		    step > solver_opts.max_steps) {
+		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
diff --git a/irk.hpp b/irk.hpp
index 5b1dce2..7717b72 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -612,13 +612,13 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		sol.count.attempt++;
 
-		if (solver_opts.max_steps >= 0 && step > solver_opts.max_steps) {
+		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
 			return sol;
 		}
+		sol.count.attempt++;
 
 		int integrator_status = 0;
 
-- 
2.43.0


From 7c005c48522545c717d9087447381783904aec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 08/55] fix: elapsed_time and accept_frac were left
 uninitialised when integration stopped early

---
 erk.hpp | 7 +++++--
 irk.hpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index c6690a3..1a8bd9c 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -337,7 +337,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		    step >= solver_opts.max_steps) {
 			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 		sol.count.attempt++;
 
@@ -458,7 +458,10 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 	}
 	double elapsed = timer.toc();
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	sol.accept_frac = 0.0;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 	return sol;
 }
 
diff --git a/irk.hpp b/irk.hpp
index 7717b72..d615ab6 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -616,7 +616,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
 			sol.status = ERROR_MAX_STEPS_EXCEEDED;
-			return sol;
+			break;
 		}
 		sol.count.attempt++;
 
@@ -643,7 +643,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				output_opts.log_out << "   Rehuel: Newton iteration "
 				          << "failed for constant time step "
 				          << "size! Aborting!\n";
-				return sol;
+				break;
 			}
 
 			dt *= 0.7;
@@ -866,7 +866,10 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 	double elapsed = timer.get_elapsed(irk_start);
 	sol.elapsed_time = elapsed;
-	sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	sol.accept_frac = 0.0;
+	if (sol.count.attempt > 0) {
+		sol.accept_frac = static_cast<double>(step) / sol.count.attempt;
+	}
 
 	if (time_internals) print_timing_breakdown(timings, std::cerr, sc.name);
 
-- 
2.43.0


From c44ba8dfe74798c04b7ae58e7cc905947b82689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 09/55] fix: Adams-Bashforth evaluated the past right-hand
 sides at the present time

---
 multistep.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/multistep.hpp b/multistep.hpp
index fc717e6..111561c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -82,25 +82,25 @@ void adams_bashforth_step(functor_type &func, int order,
 		break;
 	case 2:
 		Y += dt*(C[1][0]*func.fun(t, history[0]) +
-		         C[1][1]*func.fun(t, history[1]));
+		         C[1][1]*func.fun(t - dt, history[1]));
 		break;
 	case 3:
 		Y += dt*(C[2][0]*func.fun(t, history[0]) +
-		         C[2][1]*func.fun(t, history[1]) +
-		         C[2][2]*func.fun(t, history[2]));
+		         C[2][1]*func.fun(t - dt, history[1]) +
+		         C[2][2]*func.fun(t - 2*dt, history[2]));
 		break;
 	case 4:
 		Y += dt*(C[3][0]*func.fun(t, history[0]) +
-		         C[3][1]*func.fun(t, history[1]) +
-		         C[3][2]*func.fun(t, history[2]) +
-		         C[3][3]*func.fun(t, history[3]));
+		         C[3][1]*func.fun(t - dt, history[1]) +
+		         C[3][2]*func.fun(t - 2*dt, history[2]) +
+		         C[3][3]*func.fun(t - 3*dt, history[3]));
 		break;
 	case 5:
 		Y += dt*(C[4][0]*func.fun(t, history[0]) +
-		         C[4][1]*func.fun(t, history[1]) +
-		         C[4][2]*func.fun(t, history[2]) +
-		         C[4][3]*func.fun(t, history[3]) +
-		         C[4][4]*func.fun(t, history[4]));
+		         C[4][1]*func.fun(t - dt, history[1]) +
+		         C[4][2]*func.fun(t - 2*dt, history[2]) +
+		         C[4][3]*func.fun(t - 3*dt, history[3]) +
+		         C[4][4]*func.fun(t - 4*dt, history[4]));
 		break;
 
 	default:
-- 
2.43.0


From db1bcb199a30e461f4d8f55d45a02e411697d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 10/55] fix: multistep starting values were never integrated,
 all equalled the initial value

---
 multistep.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multistep.hpp b/multistep.hpp
index 111561c..5c3b3df 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -117,7 +117,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
                                double t, double dt)
 {
 	output_options output_opts;
-	output_opts.output_mode = output_options::NO_OUTPUT;
+	output_opts.output_mode = output_options::STORE_IN_VECTORS;
 
 	basic_output start;
 	start.t_vals.push_back(t);
@@ -130,6 +130,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	opts.newton_opts = &n_opts;
 	opts.rel_tol = 1e-10;
 	opts.abs_tol = 1e-9;
+	n_opts.tol = n_opts.dx_delta = 1e-12;
 
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
-- 
2.43.0


From d1d5ad2de94d9dd33831a618050f2e6b3dc33f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 11/55] fix: cyclic_buffer copy assignment did not compile

---
 cyclic_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 680bc2f..60e78db 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -24,7 +24,7 @@ public:
 
 	cyclic_buffer &operator=( const cyclic_buffer &o )
 	{
-		if(*this != &o){
+		if(this != &o){
 			if(period_ >= o.period()){
 				// No need to resize.
 			}
-- 
2.43.0


From 422bb3d8b6e3397aba2f10674a141dfc4bb8d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 12/55] fix: cyclic_buffer::resize left no storage to push into

---
 cyclic_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 60e78db..ff85b13 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -180,9 +180,10 @@ public:
 	void resize(std::size_t size)
 	{
 		storage_.clear();
-		storage_.reserve(2*size);
+		storage_.resize(2*size);
 		period_  = size;
 		current_ = 0;
+		size_    = 0;
 	}
 
 	/*
-- 
2.43.0


From 50cbd100a18ace8bbef985d8b3f31ae483b90b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 13/55] fix: cyclic_buffer iterators ignored their position and
 end() moved the buffer

---
 cyclic_buffer.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index ff85b13..2f1c092 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -130,7 +130,8 @@ public:
 
 	struct iterator
 	{
-		iterator(long idx, typename std::vector<T>::iterator it){}
+		iterator(long idx, typename std::vector<T>::iterator it)
+			: idx_(idx), it_(it) {}
 
 		// We iterate backwards through the vector...
 		iterator &operator++()
@@ -165,11 +166,7 @@ public:
 
 	iterator end()
 	{
-		if (current_ >= period_) {
-			return iterator(current_ = period_, storage_.begin());
-		} else {
-			return iterator(0, storage_.begin());
-		}
+		return iterator(current_ - size_, storage_.begin());
 	}
 
 	/**
-- 
2.43.0


From 4f1dcbc52abb4a4fbb629b9f25173bbe374d1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 14/55] fix: looking up an unknown method name or code
 registered it as a method

---
 erk.cpp | 8 ++++++--
 irk.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/erk.cpp b/erk.cpp
index ddf23c3..47d89c1 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -258,13 +258,17 @@ bool verify_solver_coeffs( const erk::solver_coeffs &sc )
 
 const char *method_to_name( int method )
 {
-	return erk::rk_method_to_string[method].c_str();
+	auto it = erk::rk_method_to_string.find(method);
+	if (it == erk::rk_method_to_string.end()) return "";
+	return it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return erk::rk_string_to_method[name];
+	auto it = erk::rk_string_to_method.find(name);
+	if (it == erk::rk_string_to_method.end()) return 0;
+	return it->second;
 }
 
 
diff --git a/irk.cpp b/irk.cpp
index 2a55903..4ec2889 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -708,13 +708,17 @@ bool verify_solver_options( const solver_options &opts )
 
 const char *method_to_name( int method )
 {
-	return irk::rk_method_to_string[method].c_str();
+	auto it = irk::rk_method_to_string.find(method);
+	if (it == irk::rk_method_to_string.end()) return "";
+	return it->second.c_str();
 }
 
 
 int name_to_method( const std::string &name )
 {
-	return irk::rk_string_to_method[name];
+	auto it = irk::rk_string_to_method.find(name);
+	if (it == irk::rk_string_to_method.end()) return 0;
+	return it->second;
 }
 
 
-- 
2.43.0


From 386d68e67842884c010080fac6d911bc2e64027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 15/55] fix: merge_rk_output dropped the evaluation counts of
 the second part

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 4ec2889..f586fec 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -782,6 +782,8 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	merger.count.newton_iter_error_too_large +=
 		sol2.count.newton_iter_error_too_large;
 	merger.count.newton_maxit_exceed += sol2.count.newton_maxit_exceed;
+	merger.count.fun_evals += sol2.count.fun_evals;
+	merger.count.jac_evals += sol2.count.jac_evals;
 
 	return merger;
 }
-- 
2.43.0


From 4158b2f6c42d8b2730b18e787e4181b615b2b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 16/55] fix: the orders of GAUSS_LEGENDRE_147, LOBATTO_IIIA_127
 and unknown methods were uninitialised

---
 erk.cpp | 1 +
 irk.cpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/erk.cpp b/erk.cpp
index 47d89c1..9844500 100644
--- a/erk.cpp
+++ b/erk.cpp
@@ -15,6 +15,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 
 	switch(method){
diff --git a/irk.cpp b/irk.cpp
index f586fec..5cdfb09 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -229,6 +229,7 @@ solver_coeffs get_coefficients( int method )
 	sc.FSAL = false;
 	sc.name = method_to_name( method );
 	sc.gamma = 0.0;
+	sc.order = sc.order2 = 0;
 
 	switch(method){
 	default:
@@ -609,6 +610,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5) + 0.14407010361206885 * sc.gamma,
 		          sc.b(6) - 0.04111514886290593 * sc.gamma  };
 
+		sc.order  = 14;
+		sc.order2 = 7;
+
 		break;
 	}
 
@@ -666,6 +670,9 @@ solver_coeffs get_coefficients( int method )
 		          sc.b(5),
 		          sc.b(6) };
 
+		sc.order  = 12;
+		sc.order2 = 7;
+
 		break;
 	}
 
-- 
2.43.0


From c50c9df9b62fcb887c6655aa439a0e07df71fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 17/55] fix: collocation interpolation coefficients of a single
 point were zero

---
 irk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 5cdfb09..6ad282f 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -175,6 +175,8 @@ mat_type collocation_interpolate_coeffs( const vec_type& c )
 	//
 	// The number of -1 s encode for the power of the term, with
 	// four -1 s meaning it is a fifth order term, etc.
+	// For a single point the product is empty, so it is just 1:
+	if (Ns == 1) poly_coefficients[0] = coeff_list(1);
 	mat_type b_interp = arma::zeros( Ns, Ns );
 
 	for( std::size_t i = 0; i < Ns; ++i ){
-- 
2.43.0


From e1934287e5ae27686bb85568f7a3560f3e19cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 18/55] fix: ERK output ignored the output options and wrote
 rejected steps at the wrong time

---
 erk.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index 1a8bd9c..7afa8bf 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -421,26 +421,29 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			          << " " <<  dt << " " << err << "\n";
 		}
 
-		if (output_opts.write_to_file()) {
-			*output_opts.output_stream << t;
-			for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
-				*output_opts.output_stream << " " << y_n[y_idx];
-			}
-			*output_opts.output_stream << "\n";
-		}
-
 		// ********************* Update y and time ***************
 		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
 			y  = y_n;
 			t += dt;
 			++step;
 
-			sol.t_vals.push_back(t);
-			sol.y_vals.push_back(y_n);
-			// Since K is a matrix, it needs to be flattened:
-			sol.stages.push_back(arma::vectorise(Ks));
-			sol.err_est.push_back(err_est);
-			sol.err.push_back(err);
+			if (step % output_opts.output_interval == 0) {
+				if (output_opts.store_in_vectors()) {
+					sol.t_vals.push_back(t);
+					sol.y_vals.push_back(y_n);
+					// Since K is a matrix, it needs to be flattened:
+					sol.stages.push_back(arma::vectorise(Ks));
+					sol.err_est.push_back(err_est);
+					sol.err.push_back(err);
+				}
+				if (output_opts.write_to_file()) {
+					*output_opts.output_stream << t;
+					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
+						*output_opts.output_stream << " " << y_n[y_idx];
+					}
+					*output_opts.output_stream << "\n";
+				}
+			}
 
 			// If you reach here, your new time step has been
 			// accepted and your last stage can now be uesd
-- 
2.43.0


From ec3e5b66fdedce178f7423195544c9030a115b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 19/55] fix: Broyden iteration exceeded the maximum step length

---
 newton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index b1e3b8f..52c7c35 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -310,8 +310,8 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 
 		if( max_step2 > 0 ){
 			double norm2 = dot( direction, direction );
-			if( lambda*lambda*norm2 > max_step2 ){
-				direction *= std::sqrt(max_step2/norm2)/lambda;
+			if( norm2 > max_step2 ){
+				direction *= std::sqrt(max_step2/norm2);
 			}
 		}
 		incr = arma::norm(direction, "inf");
-- 
2.43.0


From 2be0ef20092787ee88a2f723ea61821877dc5c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 20/55] fix: Broyden iteration reported success when it did not
 converge

---
 newton.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index 52c7c35..4cdf60d 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -344,7 +344,13 @@ vec_type broyden_iterate( functor_type &func, vec_type x,
 		x0 = x;
 	}
 
+	if( !terminate ){
+		stats.conv_status = MAXIT_EXCEEDED;
+	}
 	stats.res = std::sqrt( res2 );
+	if( !std::isfinite( stats.res ) ){
+		stats.conv_status = GENERIC_ERROR;
+	}
 	return x;
 }
 
-- 
2.43.0


From 5aae765852ef7657e91e5836199a168a7043d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 21/55] fix: three_body used the x distance for the y force on
 the second body

---
 test_equations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index 09b586e..7fd0733 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -297,7 +297,7 @@ struct three_body : public functor
 		dydt[ 6] =  m1*m3*x3mx1 / r13_3 + m1*m2*x2mx1 / r12_3;
 		dydt[ 7] =  m1*m3*y3my1 / r13_3 + m1*m2*y2my1 / r12_3;
 		dydt[ 8] = -m1*m2*x2mx1 / r12_3 + m2*m3*x3mx2 / r23_3;
-		dydt[ 9] = -m1*m2*y2my1 / r12_3 + m2*m3*x3mx2 / r23_3;
+		dydt[ 9] = -m1*m2*y2my1 / r12_3 + m2*m3*y3my2 / r23_3;
 		dydt[10] = -m2*m3*x3mx2 / r23_3 - m1*m3*x3mx1 / r13_3;
 		dydt[11] = -m2*m3*y3my2 / r23_3 - m1*m3*y3my1 / r13_3;
 
-- 
2.43.0


From c7561b74c8968f23ad7614898086598b2d1541a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 22/55] fix: three_body kinetic energy ignored the masses

---
 test_equations.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index 7fd0733..2518719 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -430,9 +430,9 @@ struct three_body : public functor
 		double px2 = y[10];
 		double py2 = y[11];
 
-		double T = px0*px0 + py0*py0;
-		T += px1*px1 + py1*py1;
-		T += px2*px2 + py2*py2;
+		double T = (px0*px0 + py0*py0) / m1;
+		T += (px1*px1 + py1*py1) / m2;
+		T += (px2*px2 + py2*py2) / m3;
 
 		return 0.5*T;
 	}
-- 
2.43.0


From efd283df40871549d2f7123df784a26bc4e9d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 23/55] fix: three_body Jacobi matrix was not the derivative of
 its right-hand side

---
 test_equations.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index 2518719..c01053c 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -341,7 +341,7 @@ struct three_body : public functor
 
 		J = arma::zeros(12,12);
 
-		// [ 0..5 ] is p, [ 6..11 ] is x.
+		// Derivatives of the forces; [ 6..11 ] is x.
 		J( 6, 6)  = -m1*m3 / r13_3 + 3*m1*m3*x3mx1_2 / r13_5
 		          - m1*m2 / r12_3 + 3*m1*m2*x2mx1_2 / r12_5;
 
@@ -355,7 +355,7 @@ struct three_body : public functor
 		          - m1*m2 / r12_3 + 3*m1*m2*y2my1_2 / r12_5;
 
 		J( 9, 9) = -m2*m3 / r23_3 + 3*m2*m3*y3my2_2 / r23_5
-		          - m1*m2 / r13_3 + 3*m1*m2*y2my1_2 / r12_5;
+		          - m1*m2 / r12_3 + 3*m1*m2*y2my1_2 / r12_5;
 
 		J(11,11) = -m1*m3 / r13_3 + 3*m1*m3*y3my1_2 / r13_5
 		          - m2*m3 / r23_3 + 3*m2*m3*y3my2_2 / r23_5;
@@ -371,7 +371,7 @@ struct three_body : public functor
 		J( 8, 7) = -3*m1*m2*x2mx1*y2my1 / r12_5;
 		J( 9, 7) = m1*m2/r12_3 - 3*m1*m2*y2my1_2 / r12_5;
 		J(10, 7) = -3*m1*m3*x3mx1*y3my1 / r13_5;
-		J(11, 7) = m1*m3/r13_2 - 3*m1*m3*y3my1_2 / r13_5;
+		J(11, 7) = m1*m3/r13_3 - 3*m1*m3*y3my1_2 / r13_5;
 
 		J( 9, 8) = 3*m2*m3*x3mx2*y3my2 / r23_5
 		           + 3*m1*m2*x2mx1*y2my1 / r12_5;
@@ -406,18 +406,20 @@ struct three_body : public functor
 		J( 9,11) = J(11, 9);
 		J(10,11) = J(11,10);
 
-		// x to x:
-		J(0,0) = 1.0 / m1;
-		J(1,1) = 1.0 / m1;
-		J(2,2) = 1.0 / m2;
-		J(3,3) = 1.0 / m2;
-		J(4,4) = 1.0 / m3;
-		J(5,5) = 1.0 / m3;
-
-		// x to p and p to x are 0.
+		// The above are the derivatives of the forces, so they belong
+		// in the rows of p and the columns of x:
+		J.submat(6,0,11,5) = mat_type(J.submat(6,6,11,11));
+		J.submat(6,6,11,11).zeros();
 
+		// x to p:
+		J(0,6) = 1.0 / m1;
+		J(1,7) = 1.0 / m1;
+		J(2,8) = 1.0 / m2;
+		J(3,9) = 1.0 / m2;
+		J(4,10) = 1.0 / m3;
+		J(5,11) = 1.0 / m3;
 
-		return -J;
+		return J;
 	}
 
 
-- 
2.43.0


From fa4ad9747e3f5977a9c9da6dd17e82a9d530b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 24/55] fix: verify_jacobi_matrix accepted every Jacobi matrix

---
 newton.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index 4cdf60d..b86e220 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -233,16 +233,19 @@ bool verify_jacobi_matrix(const vec_type &y, functor_type &func)
 	mat_type J_fun = func.jac( y );
 	std::size_t N = y.size();
 	double max_diff2 = 0;
+	double max_J = 1.0;
 	for( std::size_t i = 0; i < N; ++i ){
 		for( std::size_t j = 0; j < N; ++j ){
 			double delta = J_approx(i,j) - J_fun(i,j);
 			double delta2 = delta*delta;
-			if( delta2 > max_diff2 ) delta2 = max_diff2;
+			if( delta2 > max_diff2 ) max_diff2 = delta2;
+			max_J = std::max( max_J, std::fabs( J_approx(i,j) ) );
 		}
 	}
 
 	double max_diff = sqrt( max_diff2 );
-	if( max_diff > 1e-12 ){
+	// The finite difference is only accurate relative to its size:
+	if( max_diff > 1e-6*max_J ){
 		std::cerr << "Jacobi matrix seems iffy with max diff of "
 		          << max_diff << "\n";
 		return false;
-- 
2.43.0


From 2e525dc19177a132d44f1a8c7252251dfe2538b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 25/55] fix: the initial time step was not limited to max_dt

---
 erk.hpp | 3 +++
 irk.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/erk.hpp b/erk.hpp
index 7afa8bf..07d84eb 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -265,6 +265,9 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(dt, solver_opts.max_dt);
+	}
 	if( t0 + dt > t1 ){
 		std::cerr << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
diff --git a/irk.hpp b/irk.hpp
index d615ab6..749604b 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -514,6 +514,9 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
                    const solver_options &solver_opts, double dt,
                    const solver_coeffs &sc, const output_options &output_opts)
 {
+	if (solver_opts.max_dt > 0) {
+		dt = std::min(dt, solver_opts.max_dt);
+	}
 	if (t0 + dt > t1) {
 		output_opts.log_out << "    Rehuel: Initial dt (" << dt;
 		dt = t1 - t0;
-- 
2.43.0


From 3f3d681e82ae02908d41ac7f94f52ec85221c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 26/55] fix: GAUSS_LEGENDRE_42 had a singular coefficient
 matrix the integrator cannot invert

---
 irk.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 6ad282f..c09869a 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -330,12 +330,13 @@ solver_coeffs get_coefficients( int method )
 		break;
 	case GAUSS_LEGENDRE_42:
 
-		sc.A = { { 0.25, 0.25 - sqrt3/6.0, 0.0 },
-		         { 0.25 + sqrt3/6.0, 0.25, 0.0 },
-		         { 0.0, 0.0, 0.0 } };
-		sc.c = { 0.5 - sqrt3/6.0, 0.5 + sqrt3/6.0, 0.0 };
-		sc.b = { 0.5, 0.5, 0.0 };
-		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0, (2-sqrt3)/6.0 };
+		sc.A = { { 0.25, 0.25 - sqrt3/6.0 },
+		         { 0.25 + sqrt3/6.0, 0.25 } };
+		sc.c = { 0.5 - sqrt3/6.0, 0.5 + sqrt3/6.0 };
+		sc.b = { 0.5, 0.5 };
+		// The weight of the current value in the embedded method:
+		sc.gamma = (2-sqrt3)/6.0;
+		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0 };
 		sc.order = 4;
 		sc.order2 = 2;
 
-- 
2.43.0


From 38d321411aa52933e51dfaef79f32acf0fa23bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 27/55] fix: embedded weights of GAUSS_LEGENDRE_42 were in the
 wrong order

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index c09869a..1c7a14e 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -336,7 +336,7 @@ solver_coeffs get_coefficients( int method )
 		sc.b = { 0.5, 0.5 };
 		// The weight of the current value in the embedded method:
 		sc.gamma = (2-sqrt3)/6.0;
-		sc.b2= { (3*sqrt3 + 1)/12.0, (7-sqrt3)/12.0 };
+		sc.b2= { (7-sqrt3)/12.0, (3*sqrt3 + 1)/12.0 };
 		sc.order = 4;
 		sc.order2 = 2;
 
-- 
2.43.0


From 43e6d0b8833e06e57998ebc9b6e8e2c653a347ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 28/55] fix: the embedded methods of the Lobatto IIIC methods
 were not consistent

---
 irk.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 1c7a14e..41f1474 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -267,10 +267,12 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/6.0, 5.0/12.0, -1.0/12.0 },
 		         { 1.0/6.0, 2.0/3.0, 1.0/6.0 } };
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
-		sc.b2 = { 1.0/6.0, 1.0/6.0, 2.0/3.0, }; // -1.0/6.0, 5.0/6.0, 0. };
+		// gamma is the real eigenvalue of A.
+		sc.gamma = 0.3808338772072650;
+		sc.b2 = { 1.0/6.0 - sc.gamma, 2.0/3.0, 1.0/6.0 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
-		sc.order2 = 2;
+		sc.order2 = 3;
 
 		break;
 
@@ -281,7 +283,8 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, (10 + 7*sqrt(5))/60., 0.25, -sqrt(5)/60.},
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
-		sc.b2 = { 1.0/12.0, 1.0/12.0, 5.0/12.0, 5.0/12.0};
+		sc.gamma = 0.25;
+		sc.b2 = { 1.0/12.0 - sc.gamma, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
 		sc.order2 = 4;
@@ -320,8 +323,8 @@ solver_coeffs get_coefficients( int method )
 		          1.0/20.0}};
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
-		sc.b2 = {0.05, 0.05, 49/180.0, 16/45.0, 49/180.0};
 		sc.gamma  = 0.1894964436645163;
+		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.order  = 8;
 		sc.order2 = 5;
 
-- 
2.43.0


From 47f441fb1a9fe11552e444a3a4a471935e5a5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 29/55] fix: the IRK error estimate carried a spurious factor
 of the time step

---
 irk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 749604b..4873534 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -721,7 +721,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		// J0 = func.jac( t, y );
 		// J was already calculated for us in newton_solve_stages:
 		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
-		vec_type err_8_19 = dt*arma::solve(solve_tmp, delta_delta);
+		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
 		err_est = err_8_19;
 
 		// Alternative formula 8.20:
@@ -733,7 +733,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 			dy_alt_alt += delta_alt;
 			vec_type err_alt = dy_alt_alt - delta_y;
-			err_est = dt*arma::solve(solve_tmp, err_alt);
+			err_est = arma::solve(solve_tmp, err_alt);
 		}
 
 		double err_tot = 0.0;
-- 
2.43.0


From 6ac02f3585779b575e4f7aeeda2dcaa03a075ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 30/55] fix: the embedded method of RADAU_IIA_32 was not
 consistent

---
 irk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.cpp b/irk.cpp
index 41f1474..f8f9c1d 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -356,7 +356,7 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = { 1.0/3.0, 1.0 };
 		sc.b  = { 3.0/4.0, 1.0/4.0 };
 
-		sc.b2 = {2.0/3.0, 1.0/3.0};
+		sc.b2 = {1.0/4.0, 5.0/12.0};
 
 		sc.order = 3;
 		sc.order2 = 2;
-- 
2.43.0


From 5347bf4dd0eb2af6213ffb963b51bdd8811e5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 31/55] fix: ERK accepted non-finite steps, and never returned
 once the time step underflowed

---
 erk.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/erk.hpp b/erk.hpp
index 07d84eb..ffde56c 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -335,6 +335,11 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
+		if (t + dt == t) {
+			std::cerr << "    Rehuel: Time step size became too small.\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 
 		if (solver_opts.max_steps >= 0 &&
 		    step >= solver_opts.max_steps) {
@@ -360,6 +365,11 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		vec_type delta_y = Ks*sc.b;
 		vec_type y_n     = y + dt*delta_y;
 		double new_dt    = dt;
+		const bool finite = y_n.is_finite();
+		if (!solver_opts.adaptive_step_size && !finite) {
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 
 		// If you have no adaptive step size, error calculation
 		// might not be very sensible.
@@ -380,6 +390,12 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 				double add = erri / sci;
 				err_tot += add*add;
 			}
+			if (!finite || !std::isfinite(err_tot)) {
+				// The step is too large to evaluate the ODE.
+				dt *= 0.1;
+				sol.count.reject_err++;
+				continue;
+			}
 			err = std::sqrt(err_tot / n);
 			assert( err_tot >= 0.0 && "Error cannot be negative!" );
 
@@ -410,7 +426,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			// }
 			// double err_rat = std::pow(err_frac, expt);
 			double min_scale = scale_27; // std::min(scale_27, scale_28);
-			new_dt = fac * dt * std::min(4.0, min_scale);
+			new_dt = fac * dt * std::max(0.1, std::min(4.0, min_scale));
 
 			if (solver_opts.max_dt > 0) {
 				new_dt = std::min(solver_opts.max_dt, new_dt);
-- 
2.43.0


From 406f4367eb5dbdc05fb6823460eca377f4ab2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 32/55] fix: IRK never returned on a non-finite right-hand side
 and accepted non-finite errors

---
 irk.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 4873534..78fc7b3 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -458,6 +458,10 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 	int status = newton::MAXIT_EXCEEDED;
 	stats.iters = 1;
 	for ( ; stats.iters < maxit; ++stats.iters) {
+		if (!std::isfinite(Rnorm2) || !J_Y.is_finite()) {
+			status = newton::GENERIC_ERROR;
+			break;
+		}
 		vec_type dY;
 		if (PLU_decomposition) {
 			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
@@ -615,6 +619,11 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
+		if (t + dt == t) {
+			output_opts.log_out << "    Rehuel: Time step size became too small.\n";
+			sol.status = GENERAL_ERROR;
+			break;
+		}
 
 		if (solver_opts.max_steps >= 0 && step >= solver_opts.max_steps) {
 			output_opts.log_out << "    Rehuel: Maximum number of attempts exceeded.\n";
@@ -751,6 +760,19 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			n += 1.0;
 		}
 
+		const bool finite = y_n.is_finite();
+		if (!solver_opts.adaptive_step_size && !finite) {
+			sol.status = GENERAL_ERROR;
+			break;
+		}
+		if (solver_opts.adaptive_step_size &&
+		    (!finite || !std::isfinite(err_tot))) {
+			// The step is too large to evaluate the ODE.
+			dt *= 0.1;
+			alternative_error_formula = true;
+			sol.count.reject_err++;
+			continue;
+		}
 		assert( err_tot >= 0.0 && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
@@ -801,7 +823,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 
 		double min_scales = std::min( scale_27, scale_28 );
 		// When growing dt, don't grow more than a factor 4:
-		new_dt = fac * dt * std::min( 8.0, min_scales );
+		new_dt = fac * dt * std::max( 0.1, std::min( 8.0, min_scales ) );
 		if( solver_opts.max_dt > 0 ){
 			new_dt = std::min( solver_opts.max_dt, new_dt );
 		}
-- 
2.43.0


From 076f517151f7c32e2ba23c2c71eb8aa2793c086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 33/55] fix: multistep methods reported success after failed
 starting values or non-finite steps

---
 multistep.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 5c3b3df..9ad4f6c 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -122,6 +122,7 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	basic_output start;
 	start.t_vals.push_back(t);
 	start.y_vals.push_back(y);
+	start.status = SUCCESS;
 
 	// For bootstrapping, just use a high-order RK method:
 	int method = irk::LOBATTO_IIIC_85;
@@ -135,6 +136,10 @@ basic_output bootstrap_history(functor_type &func, int order, const vec_type &y,
 	for (int i = 1; i < order; ++i) {
 		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
 		                           opts, output_opts, method);
+		if (tmp_sol.status != SUCCESS) {
+			start.status = tmp_sol.status;
+			return start;
+		}
 		std::size_t Nt = tmp_sol.t_vals.size();
 		t += dt;
 		start.t_vals.push_back(t);
@@ -181,12 +186,20 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
 
 	while (t < t1) {
 		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
+		if (!y.is_finite()) {
+			sol.status = GENERAL_ERROR;
+			return sol;
+		}
 		history.push_back(y);
 		t += dt;
 		++step;
@@ -266,6 +279,10 @@ multistep::multistep_output bdf(functor_type &func, double t0, double t1,
 		sol.y_vals.push_back(hist.y_vals[i]);
 		history.push_back(hist.y_vals[i]);
 	}
+	if (hist.status != SUCCESS) {
+		sol.status = hist.status;
+		return sol;
+	}
 	std::size_t hist_size = sol.t_vals.size();
 	t = sol.t_vals[hist_size-1];
 	y = sol.y_vals[hist_size-1];
-- 
2.43.0


From 9a2d65ad69bb2173e23d4db425490ea7a740d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 34/55] fix: Adams-Bashforth of an order that does not exist
 asserted or returned a constant

---
 multistep.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multistep.hpp b/multistep.hpp
index 9ad4f6c..8025300 100644
--- a/multistep.hpp
+++ b/multistep.hpp
@@ -169,6 +169,11 @@ basic_output adams_bashforth(functor_type &func, double t0, double t1,
 	double t = t0;
 	multistep_output sol;
 	sol.status = SUCCESS;
+	if (solver_opts.order > 5 || solver_opts.order <= 0) {
+		std::cerr << "Adams-Bashforth order should be 1 to 5!\n";
+		sol.status = GENERAL_ERROR;
+		return sol;
+	}
 
 	assert(dt > 0 && "Cannot use time step size <= 0!");
 
-- 
2.43.0


From a1287dadf819c82714a4b41c4a296c1aaade5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 35/55] fix: stability_region looked up explicit methods among
 the implicit ones

---
 stability_region/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 690f033..af1bedd 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -120,7 +120,7 @@ void stability_region(const std::string &method, bool embedded_method,
 	}
 	m = erk::name_to_method(method);
 	if (m) {
-		auto sc = irk::get_coefficients(m);
+		auto sc = erk::get_coefficients(m);
 		// std::cerr << "Coeffs:\n" << sc << "\n";
 		S = rk_to_stab_region(X, Y, sc, embedded_method);
 	} else {
-- 
2.43.0


From 3665ea427ca85325e82d609411d7e937fd103767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 36/55] fix: stability_region ignored the weight of the current
 value and failed without embedded method

---
 stability_region/main.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index af1bedd..2546df0 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -32,15 +32,18 @@
 
 std::complex<double> stability_function(std::complex<double> z,
                                         const arma::mat &A,
-                                        const arma::vec &b)
+                                        const arma::vec &b,
+                                        double gamma = 0.0)
 {
+	// Methods without embedded pair have no embedded weights.
+	if (b.size() == 0) return std::nan("");
 	std::size_t N = b.size();
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
 	auto Ai = arma::inv(M);
 	std::complex<double> one(1.0,0.0);
-	return one + z*arma::dot(b, Ai*e);
+	return one + z*(gamma + arma::dot(b, Ai*e));
 }
 
 
@@ -68,7 +71,7 @@ arma::mat rk_to_stab_region(const arma::vec &X, const arma::vec &Y,
 		for (std::size_t j = 0; j < M; ++j) {
 			std::complex<double> z(X(i), Y(j));
 			if (embedded_method) {
-				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2));
+				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
 			} else {
 				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
 			}
@@ -91,14 +94,14 @@ void stability_limit(const std::string &method, std::ostream &out)
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	} else if(int m = erk::name_to_method(method)) {
 		erk::solver_coeffs sc = erk::get_coefficients(m);
 		for (double x : X) {
 			out << x << " "
 			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
-			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2)) << "\n";
+			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\n";
 		}
 	}
 }
-- 
2.43.0


From bc836707311a17114d12e7847d708fda27ca21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 37/55] fix: example program read an uninitialised option, a
 missing value and rounded numbers to float

---
 examples/example_equations.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/examples/example_equations.cpp b/examples/example_equations.cpp
index 194c6b8..0bfffa0 100644
--- a/examples/example_equations.cpp
+++ b/examples/example_equations.cpp
@@ -40,7 +40,8 @@
 struct user_options {
 	user_options() : eq("exponential"), method("LOBATTO_IIIC_85"),
 	                 t0(0.0), t1(10.0), dt(1e-2),
-	                 rel_tol(1e-5), abs_tol(1e-4), out_interval(0) {}
+	                 rel_tol(1e-5), abs_tol(1e-4),
+	                 time_internals(false), out_interval(0) {}
 	std::string eq, method;
 
 	double t0, t1, dt;
@@ -114,8 +115,8 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs two values!\n";
 				return -1;
 			}
-			u_opts.t0 = std::stof(argv[i+1]);
-			u_opts.t1 = std::stof(argv[i+2]);
+			u_opts.t0 = std::stod(argv[i+1]);
+			u_opts.t1 = std::stod(argv[i+2]);
 			i += 3;
 		} else if (arg == "--dt") {
 			if (i+1 == argc) {
@@ -123,7 +124,7 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.dt = std::stof(argv[i+1]);
+			u_opts.dt = std::stod(argv[i+1]);
 			i += 2;
 		} else if (arg == "--rel-tol") {
 			if (i+1 == argc) {
@@ -131,7 +132,7 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.rel_tol = std::stof(argv[i+1]);
+			u_opts.rel_tol = std::stod(argv[i+1]);
 			i += 2;
 		} else if (arg == "--abs-tol") {
 			if (i+1 == argc) {
@@ -139,12 +140,13 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.abs_tol = std::stof(argv[i+1]);
+			u_opts.abs_tol = std::stod(argv[i+1]);
 			i += 2;
 		} else if (arg == "--out-interval") {
 			if (i+1 == argc) {
 				std::cerr << "Option \"" << arg
 				          << "\" needs a value!\n";
+				return -1;
 			}
 			u_opts.out_interval = std::stoi(argv[i+1]);
 			i += 2;
-- 
2.43.0


From b47af04d66154b47487597c2e91e8269f363b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 38/55] fix: stability_region failed on the poles of implicit
 methods

---
 stability_region/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index 2546df0..a12f0d1 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -41,7 +41,9 @@ std::complex<double> stability_function(std::complex<double> z,
 	arma::vec e = arma::ones(N);
 	arma::mat I = arma::eye(N,N);
 	arma::cx_mat M = I - z*A;
-	auto Ai = arma::inv(M);
+	arma::cx_mat Ai;
+	// A singular matrix means z is a pole.
+	if (!arma::inv(Ai, M)) return std::numeric_limits<double>::infinity();
 	std::complex<double> one(1.0,0.0);
 	return one + z*(gamma + arma::dot(b, Ai*e));
 }
-- 
2.43.0


From f1f2b64dc17ffbd4367d99935fd71eb99cc6ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 39/55] fix: timing breakdown in seconds was ten times too
 small

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 78fc7b3..05b8314 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -344,7 +344,7 @@ inline void print_timing_breakdown(const std::vector<double> &timings,
 	std::string time_unit = "ms";
 	double time_scale = 1.0;
 	if (total_t > 1000) {
-		time_scale = 0.0001;
+		time_scale = 0.001;
 		time_unit = " s";
 	}
 	total_t *= time_scale;
-- 
2.43.0


From 3c881d8dfbd68f200642cf4d08e6505465584406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 40/55] fix: the error estimates of the Lobatto IIIC methods
 vanished for y' = g(t)

---
 irk.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index f8f9c1d..1fd2bf4 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -269,10 +269,12 @@ solver_coeffs get_coefficients( int method )
 		sc.b  = { 1.0/6.0, 2.0/3.0, 1.0/6.0 };
 		// gamma is the real eigenvalue of A.
 		sc.gamma = 0.3808338772072650;
-		sc.b2 = { 1.0/6.0 - sc.gamma, 2.0/3.0, 1.0/6.0 };
+		// Without the last stage; with all of them an embedded method of
+		// order 3 has the same quadrature, and would miss its error.
+		sc.b2 = { -sc.gamma, 1.0, 0.0 };
 		sc.c  = { 0.0, 0.5, 1.0 };
 		sc.order = 4;
-		sc.order2 = 3;
+		sc.order2 = 2;
 
 		break;
 
@@ -284,10 +286,10 @@ solver_coeffs get_coefficients( int method )
 		         { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 } };
 		sc.b  = { 1.0/12.0, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
 		sc.gamma = 0.25;
-		sc.b2 = { 1.0/12.0 - sc.gamma, 5.0/12.0, 5.0/12.0, 1.0/12.0 };
+		sc.b2 = { 1.0/6.0 - sc.gamma, (5 - sqrt(5))/12., (5 + sqrt(5))/12., 0.0 };
 		sc.c  = { 0.0, 0.5 - sqrt(5)/10., 0.5 + sqrt(5)/10., 1.0 };
 		sc.order = 6;
-		sc.order2 = 4;
+		sc.order2 = 3;
 
 		break;
 
@@ -324,9 +326,9 @@ solver_coeffs get_coefficients( int method )
 		sc.c  = {0.0, 0.5 - sqrt21/14.0, 0.5, 0.5 + sqrt21/14.0, 1.0};
 		sc.b  = {0.05, 49/180.0, 16/45.0, 49/180.0, 0.05};
 		sc.gamma  = 0.1894964436645163;
-		sc.b2 = {0.05 - sc.gamma, 49/180.0, 16/45.0, 49/180.0, 0.05};
+		sc.b2 = {-sc.gamma, 7/18.0, 2/9.0, 7/18.0, 0.0};
 		sc.order  = 8;
-		sc.order2 = 5;
+		sc.order2 = 4;
 
 		sc.b_interp = collocation_interpolate_coeffs( sc.c );
 
-- 
2.43.0


From c58d391eea51f5307166e8f22b66c7fdb157ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 41/55] fix: IRK with constant time steps aborted when only the
 error estimate was not finite

---
 irk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 05b8314..1464f58 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -773,7 +773,8 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 			sol.count.reject_err++;
 			continue;
 		}
-		assert( err_tot >= 0.0 && "Error cannot be negative!" );
+		// Without step size control the error estimate may be NaN.
+		assert( !(err_tot < 0.0) && "Error cannot be negative!" );
 		err = std::sqrt( err_tot / n );
 
 
-- 
2.43.0


From 1f298ba6b8077ca18b4fb5ee0488e5f66cf58ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 42/55] fix: define is_method_explicit, is_method_dirk and
 is_method_sdirk, which irk.hpp declares

---
 irk.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/irk.cpp b/irk.cpp
index 1fd2bf4..3fba410 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -108,6 +108,39 @@ bool verify_solver_coeffs( const solver_coeffs &sc )
 }
 
 
+bool is_method_explicit( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return true;
+}
+
+
+bool is_method_dirk( const solver_coeffs &sc )
+{
+	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
+		for( std::size_t j = i + 1; j < sc.A.n_cols; ++j ){
+			if( sc.A(i,j) != 0.0 ) return false;
+		}
+	}
+	return true;
+}
+
+
+bool is_method_sdirk( const solver_coeffs &sc )
+{
+	if( !is_method_dirk( sc ) ) return false;
+
+	for( std::size_t i = 1; i < sc.A.n_rows; ++i ){
+		if( sc.A(i,i) != sc.A(0,0) ) return false;
+	}
+	return true;
+}
+
+
 mat_type collocation_interpolate_coeffs( const vec_type& c )
 {
 	// Interpolates on a solution interval as
-- 
2.43.0


From cb3f3f7f4cb0f00e066a6c9b146077185dc0364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 43/55] fix: merge_rk_output weighted the fraction of accepted
 attempts by the number of rows

---
 irk.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irk.cpp b/irk.cpp
index 3fba410..b9e1e28 100644
--- a/irk.cpp
+++ b/irk.cpp
@@ -816,11 +816,14 @@ rk_output merge_rk_output( const rk_output &sol1, const rk_output &sol2 )
 	                   sol2.err.begin(), sol2.err.end() );
 
 	merger.elapsed_time += sol2.elapsed_time;
-	double steps1 = sol1.t_vals.size();
-	double steps2 = sol2.t_vals.size();
-	double total_steps = steps1 + steps2;
-	merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
-	merger.accept_frac /= total_steps;
+	double attempts1 = sol1.count.attempt;
+	double attempts2 = sol2.count.attempt;
+	double total_attempts = attempts1 + attempts2;
+	merger.accept_frac = 0.0;
+	if (total_attempts > 0) {
+		merger.accept_frac = (attempts1*sol1.accept_frac +
+		                      attempts2*sol2.accept_frac) / total_attempts;
+	}
 
 	merger.count.attempt += sol2.count.attempt;
 	merger.count.reject_newton += sol2.count.reject_newton;
-- 
2.43.0


From 92fc1dbfdb22b94bd048d7ec5827806b0ecbeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 44/55] fix: Newton iteration reported success if the Jacobi
 matrix is singular

---
 newton.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index b86e220..ff9c5a4 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -384,6 +384,9 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 	vec_type f0 = r;
 
 	vec_type direction;
+	// Do not accept a least-squares step if the Jacobi matrix is singular:
+	const auto solve_opts = arma::solve_opts::no_approx
+		+ arma::solve_opts::allow_ugly;
 
 	typename functor_type::jac_type L(N, N), U(N,N), P(N, N);
 
@@ -437,7 +440,10 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 		}
 
 		try{
-			if( precondition ){
+			if( res2 == 0.0 ){
+				// This is a root already.
+				direction = arma::zeros(N);
+			}else if( precondition ){
 				for( std::size_t i = 0; i < N; ++i ){
 					if( J(i,i) != 0.0 ){
 						P(i,i) = 1.0 / J(i,i);
@@ -445,11 +451,11 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 						P(i,i) = 1.0;
 					}
 				}
-				direction = -arma::solve(P*J, P*r);
+				direction = -arma::solve(P*J, P*r, solve_opts);
 
 			}else{
 				if (!store_LU) {
-					direction = -arma::solve(J, r);
+					direction = -arma::solve(J, r, solve_opts);
 				} else {
 					// J = P.t() * L * U
 					// so if direction = inv(J)*r we need
@@ -460,12 +466,13 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 					// J*direction = r
 					// P.t() * L * U*direction = r
 					arma::vec temp1 = P*r;
-					arma::vec temp2 = arma::solve(arma::trimatl(L), temp1);
-					direction = arma::solve(arma::trimatu(U), temp2);
+					arma::vec temp2 = arma::solve(arma::trimatl(L), temp1, solve_opts);
+					direction = arma::solve(arma::trimatu(U), temp2, solve_opts);
 				}
 			}
 		}catch( std::exception &e ){
 			stats.conv_status = GENERIC_ERROR;
+			stats.res = std::sqrt( res2 );
 			std::cerr << "Newton caught generic error!\n";
 			return x;
 		}
-- 
2.43.0


From a4faa098a7cf207b906213bf53490e079a04207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 45/55] fix: IRK accepted steps whose stage system is singular

---
 irk.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/irk.hpp b/irk.hpp
index 1464f58..26e1a01 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -450,6 +450,9 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 		step /= sqrt(1.0 + Rnorm2);
 	}
 	double xnorm2 = 0;
+	// Do not accept a least-squares step if the system is singular:
+	const auto solve_opts = arma::solve_opts::no_approx
+		+ arma::solve_opts::allow_ugly;
 
 	// During iteration, we sometimes temporarily increase the
 	// maximum number of allowed iterations when the error is very small.
@@ -463,11 +466,19 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			break;
 		}
 		vec_type dY;
+		bool solved;
 		if (PLU_decomposition) {
-			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
-			dY  = arma::solve(arma::trimatu(U), tmp);
+			vec_type tmp;
+			solved = arma::solve(tmp, arma::trimatl(-L), P*R, solve_opts)
+				&& arma::solve(dY, arma::trimatu(U), tmp, solve_opts);
 		} else {
-			dY  = -arma::solve(J_Y, R);
+			solved = arma::solve(dY, J_Y, -R, solve_opts);
+		}
+		if (!solved) {
+			// Only if Y solves the system already, no step is needed.
+			status = Rnorm2 == 0 ? newton::SUCCESS
+				: newton::GENERIC_ERROR;
+			break;
 		}
 		xnorm2 = arma::dot(dY, dY);
 
-- 
2.43.0


From dc0725005ba874d8cadd7b9a8d695819f80591f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 46/55] Revert "fix: example program read an uninitialised
 option, a missing value and rounded numbers to float"

This reverts commit bc836707311a17114d12e7847d708fda27ca21c0.
---
 examples/example_equations.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/examples/example_equations.cpp b/examples/example_equations.cpp
index 0bfffa0..194c6b8 100644
--- a/examples/example_equations.cpp
+++ b/examples/example_equations.cpp
@@ -40,8 +40,7 @@
 struct user_options {
 	user_options() : eq("exponential"), method("LOBATTO_IIIC_85"),
 	                 t0(0.0), t1(10.0), dt(1e-2),
-	                 rel_tol(1e-5), abs_tol(1e-4),
-	                 time_internals(false), out_interval(0) {}
+	                 rel_tol(1e-5), abs_tol(1e-4), out_interval(0) {}
 	std::string eq, method;
 
 	double t0, t1, dt;
@@ -115,8 +114,8 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs two values!\n";
 				return -1;
 			}
-			u_opts.t0 = std::stod(argv[i+1]);
-			u_opts.t1 = std::stod(argv[i+2]);
+			u_opts.t0 = std::stof(argv[i+1]);
+			u_opts.t1 = std::stof(argv[i+2]);
 			i += 3;
 		} else if (arg == "--dt") {
 			if (i+1 == argc) {
@@ -124,7 +123,7 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.dt = std::stod(argv[i+1]);
+			u_opts.dt = std::stof(argv[i+1]);
 			i += 2;
 		} else if (arg == "--rel-tol") {
 			if (i+1 == argc) {
@@ -132,7 +131,7 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.rel_tol = std::stod(argv[i+1]);
+			u_opts.rel_tol = std::stof(argv[i+1]);
 			i += 2;
 		} else if (arg == "--abs-tol") {
 			if (i+1 == argc) {
@@ -140,13 +139,12 @@ int parse_opts(int argc, char **argv, user_options &u_opts)
 				          << "\" needs a value!\n";
 				return -1;
 			}
-			u_opts.abs_tol = std::stod(argv[i+1]);
+			u_opts.abs_tol = std::stof(argv[i+1]);
 			i += 2;
 		} else if (arg == "--out-interval") {
 			if (i+1 == argc) {
 				std::cerr << "Option \"" << arg
 				          << "\" needs a value!\n";
-				return -1;
 			}
 			u_opts.out_interval = std::stoi(argv[i+1]);
 			i += 2;
-- 
2.43.0


From b3a57c9c3aaa20719fe2da8f4b463d7f25967d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 47/55] Revert "fix: three_body Jacobi matrix was not the
 derivative of its right-hand side"

This reverts commit efd283df40871549d2f7123df784a26bc4e9d093.
---
 test_equations.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index c01053c..2518719 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -341,7 +341,7 @@ struct three_body : public functor
 
 		J = arma::zeros(12,12);
 
-		// Derivatives of the forces; [ 6..11 ] is x.
+		// [ 0..5 ] is p, [ 6..11 ] is x.
 		J( 6, 6)  = -m1*m3 / r13_3 + 3*m1*m3*x3mx1_2 / r13_5
 		          - m1*m2 / r12_3 + 3*m1*m2*x2mx1_2 / r12_5;
 
@@ -355,7 +355,7 @@ struct three_body : public functor
 		          - m1*m2 / r12_3 + 3*m1*m2*y2my1_2 / r12_5;
 
 		J( 9, 9) = -m2*m3 / r23_3 + 3*m2*m3*y3my2_2 / r23_5
-		          - m1*m2 / r12_3 + 3*m1*m2*y2my1_2 / r12_5;
+		          - m1*m2 / r13_3 + 3*m1*m2*y2my1_2 / r12_5;
 
 		J(11,11) = -m1*m3 / r13_3 + 3*m1*m3*y3my1_2 / r13_5
 		          - m2*m3 / r23_3 + 3*m2*m3*y3my2_2 / r23_5;
@@ -371,7 +371,7 @@ struct three_body : public functor
 		J( 8, 7) = -3*m1*m2*x2mx1*y2my1 / r12_5;
 		J( 9, 7) = m1*m2/r12_3 - 3*m1*m2*y2my1_2 / r12_5;
 		J(10, 7) = -3*m1*m3*x3mx1*y3my1 / r13_5;
-		J(11, 7) = m1*m3/r13_3 - 3*m1*m3*y3my1_2 / r13_5;
+		J(11, 7) = m1*m3/r13_2 - 3*m1*m3*y3my1_2 / r13_5;
 
 		J( 9, 8) = 3*m2*m3*x3mx2*y3my2 / r23_5
 		           + 3*m1*m2*x2mx1*y2my1 / r12_5;
@@ -406,20 +406,18 @@ struct three_body : public functor
 		J( 9,11) = J(11, 9);
 		J(10,11) = J(11,10);
 
-		// The above are the derivatives of the forces, so they belong
-		// in the rows of p and the columns of x:
-		J.submat(6,0,11,5) = mat_type(J.submat(6,6,11,11));
-		J.submat(6,6,11,11).zeros();
+		// x to x:
+		J(0,0) = 1.0 / m1;
+		J(1,1) = 1.0 / m1;
+		J(2,2) = 1.0 / m2;
+		J(3,3) = 1.0 / m2;
+		J(4,4) = 1.0 / m3;
+		J(5,5) = 1.0 / m3;
 
-		// x to p:
-		J(0,6) = 1.0 / m1;
-		J(1,7) = 1.0 / m1;
-		J(2,8) = 1.0 / m2;
-		J(3,9) = 1.0 / m2;
-		J(4,10) = 1.0 / m3;
-		J(5,11) = 1.0 / m3;
+		// x to p and p to x are 0.
 
-		return J;
+
+		return -J;
 	}
 
 
-- 
2.43.0


From 7e2f48b3ef69b2444d4ba811f47d120597a18f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 48/55] Revert "fix: three_body kinetic energy ignored the
 masses"

This reverts commit c7561b74c8968f23ad7614898086598b2d1541a5.
---
 test_equations.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index 2518719..7fd0733 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -430,9 +430,9 @@ struct three_body : public functor
 		double px2 = y[10];
 		double py2 = y[11];
 
-		double T = (px0*px0 + py0*py0) / m1;
-		T += (px1*px1 + py1*py1) / m2;
-		T += (px2*px2 + py2*py2) / m3;
+		double T = px0*px0 + py0*py0;
+		T += px1*px1 + py1*py1;
+		T += px2*px2 + py2*py2;
 
 		return 0.5*T;
 	}
-- 
2.43.0


From 6b9d8fef0a97ebdf3e67878f3587dffb2e3024ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 49/55] Revert "fix: three_body used the x distance for the y
 force on the second body"

This reverts commit 5aae765852ef7657e91e5836199a168a7043d887.
---
 test_equations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_equations.hpp b/test_equations.hpp
index 7fd0733..09b586e 100644
--- a/test_equations.hpp
+++ b/test_equations.hpp
@@ -297,7 +297,7 @@ struct three_body : public functor
 		dydt[ 6] =  m1*m3*x3mx1 / r13_3 + m1*m2*x2mx1 / r12_3;
 		dydt[ 7] =  m1*m3*y3my1 / r13_3 + m1*m2*y2my1 / r12_3;
 		dydt[ 8] = -m1*m2*x2mx1 / r12_3 + m2*m3*x3mx2 / r23_3;
-		dydt[ 9] = -m1*m2*y2my1 / r12_3 + m2*m3*y3my2 / r23_3;
+		dydt[ 9] = -m1*m2*y2my1 / r12_3 + m2*m3*x3mx2 / r23_3;
 		dydt[10] = -m2*m3*x3mx2 / r23_3 - m1*m3*x3mx1 / r13_3;
 		dydt[11] = -m2*m3*y3my2 / r23_3 - m1*m3*y3my1 / r13_3;
 
-- 
2.43.0


From b933fa88a344c2cb3852646d1983936bfa513487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 50/55] fix: the IRK stage solver reported success if the final
 residual is not finite

---
 irk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irk.hpp b/irk.hpp
index 26e1a01..d9d3e03 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -491,7 +491,7 @@ int newton_solve_stages(functor_type &func, const vec_type &y, double t,
 			status = newton::SUCCESS;
 			break;
 		}
-		if (xnorm2 < xtol2) {
+		if (xnorm2 < xtol2 && std::isfinite(Rnorm2)) {
 			status = newton::SUCCESS;
 			break;
 		}
-- 
2.43.0


From 14f255107a03f2c1d80573e8c99d87abd20a8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 51/55] fix: cyclic_buffer lost modifications of its elements
 when it wrapped around

---
 cyclic_buffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_buffer.hpp b/cyclic_buffer.hpp
index 2f1c092..ef1c982 100644
--- a/cyclic_buffer.hpp
+++ b/cyclic_buffer.hpp
@@ -115,6 +115,9 @@ public:
 		}
 		current_ = next_spot;
 		if (next_spot == 2*period_ - 1) {
+			// Elements may have been modified since they were added.
+			std::copy(storage_.begin() + period_, storage_.end(),
+			          storage_.begin());
 			current_ = period_ - 1;
 		}
 
-- 
2.43.0


From 42a924a7c9f5bcfc0e6d676d5f97868f1f74e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 52/55] Revert "fix: verify_jacobi_matrix accepted every Jacobi
 matrix"

This reverts commit fa4ad9747e3f5977a9c9da6dd17e82a9d530b711.
---
 newton.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/newton.hpp b/newton.hpp
index ff9c5a4..f2bbb3c 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -233,19 +233,16 @@ bool verify_jacobi_matrix(const vec_type &y, functor_type &func)
 	mat_type J_fun = func.jac( y );
 	std::size_t N = y.size();
 	double max_diff2 = 0;
-	double max_J = 1.0;
 	for( std::size_t i = 0; i < N; ++i ){
 		for( std::size_t j = 0; j < N; ++j ){
 			double delta = J_approx(i,j) - J_fun(i,j);
 			double delta2 = delta*delta;
-			if( delta2 > max_diff2 ) max_diff2 = delta2;
-			max_J = std::max( max_J, std::fabs( J_approx(i,j) ) );
+			if( delta2 > max_diff2 ) delta2 = max_diff2;
 		}
 	}
 
 	double max_diff = sqrt( max_diff2 );
-	// The finite difference is only accurate relative to its size:
-	if( max_diff > 1e-6*max_J ){
+	if( max_diff > 1e-12 ){
 		std::cerr << "Jacobi matrix seems iffy with max diff of "
 		          << max_diff << "\n";
 		return false;
-- 
2.43.0


From c15c9f750f943be2bc77ada4782b0a5f1dc9edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 53/55] fix: stability_region aborted on an unknown method and
 left an empty file

---
 stability_region/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stability_region/main.cpp b/stability_region/main.cpp
index a12f0d1..86cde7f 100644
--- a/stability_region/main.cpp
+++ b/stability_region/main.cpp
@@ -155,6 +155,10 @@ int main(int argc, char **argv)
 	std::cerr << "\n";
 
 	std::string method(argv[1]);
+	if (!irk::name_to_method(method) && !erk::name_to_method(method)) {
+		std::cerr << "Method " << method << " not recognized!\n";
+		return -1;
+	}
 	if (int method_enum = irk::name_to_method(method)) {
 		auto sc = irk::get_coefficients(method_enum);
 		std::cerr << "Method coeffs:\n" << sc << "\n";
-- 
2.43.0


From e0f3074adde78151a192c5509c1af458442e6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 54/55] fix: the time step could get stuck at the smallest
 number and never become too small

---
 erk.hpp | 2 +-
 irk.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/erk.hpp b/erk.hpp
index ffde56c..1098d6a 100644
--- a/erk.hpp
+++ b/erk.hpp
@@ -335,7 +335,7 @@ rk_output erk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		if (t + dt == t) {
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
 			std::cerr << "    Rehuel: Time step size became too small.\n";
 			sol.status = GENERAL_ERROR;
 			break;
diff --git a/irk.hpp b/irk.hpp
index d9d3e03..6efbff9 100644
--- a/irk.hpp
+++ b/irk.hpp
@@ -630,7 +630,7 @@ rk_output irk_guts(functor_type &func, double t0, double t1, const vec_type &y0,
 		if( t + dt > t1 ){
 			dt = t1 - t;
 		}
-		if (t + dt == t) {
+		if (t + dt == t || dt < std::numeric_limits<double>::min()) {
 			output_opts.log_out << "    Rehuel: Time step size became too small.\n";
 			sol.status = GENERAL_ERROR;
 			break;
-- 
2.43.0


From 0357fa42ae025a2f77d627e9f9749a8eb520fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 55/55] fix: Newton iteration does not converge on an infinite
 Jacobi matrix

---
 newton.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newton.hpp b/newton.hpp
index f2bbb3c..f6b119b 100644
--- a/newton.hpp
+++ b/newton.hpp
@@ -440,6 +440,8 @@ vec_type newton_iterate_impl(functor_type &func, vec_type x,
 			if( res2 == 0.0 ){
 				// This is a root already.
 				direction = arma::zeros(N);
+			}else if( !J.is_finite() ){
+				throw std::runtime_error("Jacobi matrix is not finite");
 			}else if( precondition ){
 				for( std::size_t i = 0; i < N; ++i ){
 					if( J(i,i) != 0.0 ){
-- 
2.43.0

