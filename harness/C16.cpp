// C16: Newton iteration: truthful status, roots within tolerance, and every
// option does what it says.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 40000; }

// F(x) = A (x - s + e g(x - s)), root s, |g'| <= 1.
struct Sys {
	typedef mat jac_type;
	mat A; vec s; double e = 0; int g = 0;
	std::vector<vec> seen; std::vector<vec> vals; long nf = 0, nj = 0; long nan_at = -1, throw_at = -1; bool singular = false; double inf = 0;
	vec G(const vec &d) const { return g == 0 ? vec(arma::sin(d)) : g == 1 ? vec(arma::tanh(d)) : vec(d / (1.0 + d % d)); }
	vec dG(const vec &d) const { vec q = 1.0 + d % d; return g == 0 ? vec(arma::cos(d)) : g == 1 ? vec(1.0 - arma::square(arma::tanh(d))) : vec((1.0 - d % d) / (q % q)); }
	vec F(const vec &x) const { vec d = x - s; return A * (d + e * G(d)); }
	mat J(const vec &x) const { vec d = x - s; return A * arma::diagmat(1.0 + e * dG(d)); }
	vec fun(const vec &x)
	{
		if (nf++ == throw_at) throw InjectedThrow{7};
		vec v = F(x);
		if (nan_at >= 0 && nf > nan_at) v(0) = std::nan("");
		seen.push_back(x); vals.push_back(v);
		return v;
	}
	mat jac(const vec &x) { ++nj; mat m = J(x); if (singular) m.zeros(); if (inf != 0) m(0, 0) = inf; return m; }
};

void run_case(long id, Rng &r)
{
	Sys S;
	int n = r.i(1, 6);
	S.A = random_orthogonal(r, n) * arma::diagmat(r.v(n, 0.5, 3)) * random_orthogonal(r, n);
	if (r.b(0.3)) S.A *= r.logu(0.01, 100);
	if (r.b(0.2)) { // zeros on the diagonal
		S.A = arma::diagmat(r.v(n, 0.5, 3)); S.A = S.A.rows(arma::sort_index(r.v(n)));
	}
	S.s = r.v(n, -3, 3);
	S.g = r.i(0, 2);
	S.e = r.b(0.25) ? 0 : r.u(-0.6, 0.9);
	double dist = r.pick(std::vector<double>{0, 1e-6, 0.1, 0.5, 3});
	vec x0 = S.s + r.v(n) * dist;
	newton::options o;
	o.dx_delta = r.logu(1e-12, 1e-3); o.tol = r.logu(1e-12, 1e-3);
	o.maxit = r.b(0.7) ? 500 : r.i(1, 8);
	o.refresh_jac = r.i(0, 12); o.precondition = r.b(); o.limit_step = r.b(0.3); o.time_internals = r.b(0.3);
	o.max_step = r.b(0.3) ? r.logu(0.02, 3) : -1;
	bool quiet = r.b(0.9);
	int fault = r.b(0.1) ? r.i(1, 4) : 0;
	if (fault == 1) S.nan_at = r.i(0, 3);
	if (fault == 2) S.singular = true;
	if (fault == 3) S.throw_at = r.i(0, 2);
	if (fault == 4) S.inf = r.pick(std::vector<double>{HUGE_VAL, -HUGE_VAL, std::nan("")});
	newton::status st; st.iters = 99; st.res = -1; st.conv_status = 77; // must be overwritten
	std::string d = cat("n=", n, " g=", S.g, " e=", S.e, " dist=", dist, " dx_delta=", o.dx_delta, " maxit=", o.maxit, " refresh=", o.refresh_jac, " precondition=", o.precondition,
	                    " limit_step=", o.limit_step, " max_step=", o.max_step, " fault=", fault, " root=", S.s, " x0=", x0);
	rep().context = d;
	vec x;
	bool threw = false;
	try { x = newton::newton_iterate(S, x0, o, st, quiet); } catch (const InjectedThrow &) { threw = true; }
	if (fault == 3 && S.nf > S.throw_at) { RTM_CHECK(threw, "exception-lost", d); rep().count("exceptions"); return; }
	d += cat(" -> status=", st.conv_status, " iters=", st.iters, " res=", st.res, " x=", x);
	rep().count("solves"); rep().count("iterations", st.iters);
	std::size_t k = S.seen.size();
	bool ok = st.conv_status == newton::SUCCESS;
	RTM_CHECK(st.conv_status >= newton::SUCCESS && st.conv_status <= newton::GENERIC_ERROR, "status-range", d);
	RTM_CHECK(st.iters >= 0 && st.iters <= o.maxit, "too-many-iterations", d);
	if (k < 1) { rep().violation("no-evaluation", d); return; }
	RTM_CHECK(same_bits(S.seen[0], x0), "starting-point", d);
	RTM_CHECK((long)k == st.iters + 1, "evaluations", cat(d, " evaluations ", k));
	// Each iterate moves by at most max_step.
	double last = 0;
	for (std::size_t q = 1; q < k; ++q) {
		vec dx = S.seen[q] - S.seen[q - 1];
		last = arma::norm(dx, "inf");
		if (o.max_step > 0 && dx.is_finite()) RTM_CHECK(arma::norm(dx, 2) <= o.max_step * (1 + 1e-9) + 1e-14 * arma::norm(S.seen[q], 2), "max_step", cat(d, " step ", q, " of length ", arma::norm(dx, 2)));
	}
	if (ok) {
		rep().count("converged");
		RTM_CHECK(same_bits(x, S.seen.back()), "not-the-last-iterate", d);
		RTM_CHECK(x.is_finite() && std::isfinite(st.res), "non-finite-success", d);
		RTM_CHECK(last <= o.dx_delta + 1e-14 * arma::norm(x, "inf"), "stopped-early", cat(d, " last increment ", last));
		double res = std::sqrt(arma::dot(S.vals.back(), S.vals.back())); // arma::norm() ignores NaN
		RTM_CHECK(std::fabs(res - st.res) <= 1e-12 * res + 1e-300, "residual", cat(d, " actual ", res));
		// The increment bounds the error once the iteration contracts (rate at most ~0.8
		// with the frozen Jacobi matrix, and 1/(1+|F|^2) with limit_step).
		double lim = (o.limit_step ? 20 : 1) * 20 * o.dx_delta + 1e-12;
		if (fault == 0 && (o.refresh_jac || std::fabs(S.e) < 0.3)) { RTM_CHECK(arma::norm(x - S.s, "inf") <= lim, "inaccurate-root", cat(d, " error ", arma::norm(x - S.s, "inf"))); rep().count("roots-compared"); }
	} else {
		rep().count("failed");
		RTM_CHECK(same_bits(x, x0), "failure-moved-x", d);
		// Failing takes all iterations, or something that cannot be solved.
		RTM_CHECK(st.iters == o.maxit || fault == 1 || fault == 2 || fault == 4 || !std::isfinite(st.res) || st.conv_status == newton::GENERIC_ERROR, "gave-up-early", d);
		if (st.iters == o.maxit && fault == 0 && std::isfinite(arma::dot(S.vals.back(), S.vals.back()))) RTM_CHECK(st.conv_status == newton::MAXIT_EXCEEDED, "status", d);
	}
	if (fault == 1 && (long)k > S.nan_at) RTM_CHECK(!ok, "success-on-nan", d);
	if (fault == 4) RTM_CHECK(!ok || !arma::any(S.vals[0]), "success-on-infinite-jacobi", d);
	if (fault == 2 && n > 0) RTM_CHECK(!ok || !arma::any(S.vals[0]), "success-on-singular", d);
	if (fault == 0) {
		if (!o.refresh_jac) RTM_CHECK(S.nj == 1, "jacobi-not-frozen", cat(d, " evaluated ", S.nj, " times"));
		else RTM_CHECK(S.nj >= std::max(1, (st.iters + o.refresh_jac - 1) / o.refresh_jac) && S.nj <= st.iters + 1, "jacobi-evaluations", cat(d, " evaluated ", S.nj, " times"));
		// Contraction guaranteed: it has to converge.
		double total = arma::norm(x0 - S.s, 2);
		double need = 60;
		if (o.max_step > 0) need += 4 * total / o.max_step;
		bool tame = S.e > -0.25 && S.e < 0.25;
		// limit_step shortens steps to 1/(1 + |F|^2).
		if (o.limit_step) need += 60 * (1 + std::pow(arma::norm(S.vals[0]), 2));
		if (tame && o.maxit > need) { RTM_CHECK(ok, "did-not-converge", d); rep().count("guaranteed"); }
		// Linear: the first full step is exact, the second confirms.
		if (S.e == 0 && !o.limit_step && o.max_step <= 0) {
			if (o.maxit > 2 && o.dx_delta > 1e-11) RTM_CHECK(ok && st.iters <= 2, "linear-not-immediate", d);
			RTM_CHECK(k < 2 || arma::norm(S.seen[1] - S.s, "inf") <= 1e-11 * (1 + arma::norm(x0, "inf")), "linear-step", d);
			rep().count("linear");
		}
		// Fresh Jacobi matrix: quadratic convergence. e_{k+1} <= C e_k^2.
		if (o.refresh_jac && tame && !o.limit_step && o.max_step <= 0) {
			for (std::size_t q = 1; q < k; ++q) {
				double e0 = arma::norm(S.seen[q - 1] - S.s, "inf"), e1 = arma::norm(S.seen[q] - S.s, "inf");
				if (e0 > 1e-6 && e0 < 0.3) { RTM_CHECK(e1 <= 2 * e0 * e0 + 1e-12, "not-quadratic", cat(d, " error ", e0, " -> ", e1)); rep().count("quadratic-steps"); }
			}
		}
		// The preconditioner changes nothing but rounding; neither does printing.
		if (r.b(0.2)) {
			Sys T = S; T.seen.clear(); T.vals.clear(); T.nf = T.nj = 0;
			newton::options o2 = o; o2.precondition = !o.precondition;
			newton::status s2;
			vec x2 = newton::newton_iterate(T, x0, o2, s2, !quiet);
			if (ok && s2.conv_status == newton::SUCCESS && tame) RTM_CHECK(arma::norm(x - x2, "inf") <= 3 * o.dx_delta + 1e-11, "preconditioner-changes-root", cat(d, " other ", x2));
			if (tame && o.maxit > need) RTM_CHECK(s2.conv_status == newton::SUCCESS, "did-not-converge", d + " (other preconditioning)");
			rep().count("preconditioner-pairs");
		}
	}
	if (r.b(0.1)) {
		// The wrappers evaluate what they wrap.
		Sys T = S; T.nan_at = T.throw_at = -1; T.singular = false; T.inf = 0;
		auto f = [&T](const vec &y) { return T.F(y); };
		auto J = [&T](const vec &y) { return T.J(y); };
		newton::newton_lambda_wrapper<decltype(f), decltype(J), mat> W(f, J);
		newton::status a, b;
		vec xa = newton::newton_iterate(W, x0, o, a), xb = newton::newton_iterate(T, x0, o, b);
		RTM_CHECK(a.conv_status == b.conv_status && a.iters == b.iters && same_bits(xa, xb), "lambda-wrapper", d);
		Problem p; p.dim = n; double tt = r.u(-3, 3); Trace tr; tr.log = true;
		p.f = [&](double t, const vec &y) { return vec(T.F(y) * (1 + t - tt)); };
		p.J = [&](double t, const vec &y) { return mat(T.J(y) * (1 + t - tt)); };
		Fun F(p, tr);
		newton::newton_functor_wrapper<Fun> V(F, tt);
		vec xc = newton::newton_iterate(V, x0, o, a);
		RTM_CHECK(a.conv_status == b.conv_status && a.iters == b.iters && same_bits(xc, xb), "functor-wrapper", d);
		rep().count("wrappers");
	}
	if (st.iters > 1) { rep().nontrivial(d); rep().sample(d); }
}
