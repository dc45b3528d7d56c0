// C17: Broyden iteration: truthful status, roots within tolerance, bounded steps.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 40000; }

// F(x) = x - s - K g(x - s): the identity, on which the method starts, is close.
struct Sys {
	mat K; vec s; int g = 0; double gain = 1;
	std::vector<vec> seen, vals; long nf = 0, nan_at = -1, throw_at = -1;
	vec F(const vec &x) const { vec d = x - s; return gain * (d - K * (g == 0 ? vec(arma::sin(d)) : g == 1 ? vec(arma::tanh(d)) : d)); }
	vec fun(const vec &x)
	{
		if (nf++ == throw_at) throw InjectedThrow{7};
		vec v = F(x);
		if (nan_at >= 0 && nf > nan_at) v(0) = std::nan("");
		seen.push_back(x); vals.push_back(v);
		return v;
	}
};

void run_case(long id, Rng &r)
{
	Sys S;
	int n = r.i(1, 6);
	mat M = r.m(n, n);
	double rate = r.u(0, 0.6);
	bool hostile = r.b(0.15);
	S.K = M * ((hostile ? r.u(0.5, 4) : rate) / std::max(1e-12, arma::norm(M, 2)));
	if (r.b(0.2)) S.gain = r.u(0.6, 1.4);
	S.s = r.v(n, -3, 3); S.g = r.i(0, 2);
	double dist = r.pick(std::vector<double>{0, 1e-6, 0.1, 0.5, 3});
	vec x0 = S.s + r.v(n) * dist;
	newton::options o;
	o.dx_delta = r.logu(1e-11, 1e-3); o.tol = r.logu(1e-11, 1e-3);
	o.maxit = r.b(0.7) ? 2000 : r.i(1, 10);
	o.max_step = r.b(0.4) ? r.logu(0.02, 3) : -1;
	int fault = r.b(0.1) ? r.i(1, 2) : 0;
	if (fault == 1) S.nan_at = r.i(0, 4);
	if (fault == 2) S.throw_at = r.i(0, 2);
	newton::status st; st.iters = 99; st.res = -1; st.conv_status = 77;
	std::string d = cat("n=", n, " g=", S.g, " |K|=", arma::norm(S.K, 2), " gain=", S.gain, " dist=", dist, " dx_delta=", o.dx_delta, " tol=", o.tol, " maxit=", o.maxit, " max_step=", o.max_step, " fault=", fault, " root=", S.s, " x0=", x0);
	rep().context = d;
	vec x;
	bool threw = false;
	try { x = newton::broyden_iterate(S, x0, o, st, r.b(0.9)); } catch (const InjectedThrow &) { threw = true; }
	if (fault == 2 && S.nf > S.throw_at) { RTM_CHECK(threw, "exception-lost", d); rep().count("exceptions"); return; }
	d += cat(" -> status=", st.conv_status, " iters=", st.iters, " res=", st.res, " x=", x);
	rep().count("solves"); rep().count("iterations", st.iters);
	std::size_t k = S.seen.size();
	if (k < 1) { rep().violation("no-evaluation", d); return; }
	bool ok = st.conv_status == newton::SUCCESS;
	RTM_CHECK(st.conv_status >= newton::SUCCESS && st.conv_status <= newton::GENERIC_ERROR, "status-range", d);
	RTM_CHECK(same_bits(S.seen[0], x0), "starting-point", d);
	RTM_CHECK(st.iters >= 1 && st.iters <= std::max(1, o.maxit), "too-many-iterations", d);
	RTM_CHECK((long)k == st.iters, "evaluations", cat(d, " evaluations ", k));
	double last = 1e300;
	for (std::size_t q = 1; q < k; ++q) {
		vec dx = S.seen[q] - S.seen[q - 1];
		last = arma::norm(dx, "inf");
		if (o.max_step > 0 && dx.is_finite()) RTM_CHECK(arma::norm(dx, 2) <= o.max_step * (1 + 1e-9) + 1e-14 * arma::norm(S.seen[q], 2), "max_step", cat(d, " step ", q, " of length ", arma::norm(dx, 2)));
	}
	double res = std::sqrt(arma::dot(S.vals.back(), S.vals.back())); // arma::norm() ignores NaN
	RTM_CHECK(same_bits(x, S.seen.back()), "not-the-last-iterate", d);
	RTM_CHECK(std::fabs(res - st.res) <= 1e-12 * res + 1e-160 || (!std::isfinite(res) && !std::isfinite(st.res)), "residual", cat(d, " actual ", res));
	bool small = last <= o.dx_delta + 1e-14 * arma::norm(x, "inf"), solved = res < o.tol * (1 + 1e-9);
	if (ok) {
		rep().count("converged");
		RTM_CHECK(std::isfinite(res), "non-finite-success", d);
		RTM_CHECK(small || solved, "false-success", cat(d, " last increment ", last));
		if (!hostile && o.max_step <= 0) {
			// |F| >= gain (1 - |K|) |x - s|.
			double err = arma::norm(x - S.s, 2), lim = solved ? o.tol / (S.gain * (1 - rate)) + 1e-13 : 100 * o.dx_delta * std::sqrt(n) + 1e-13;
			RTM_CHECK(err <= lim * 1.01, "inaccurate-root", cat(d, " error ", err));
			rep().count("roots-compared");
		}
	} else {
		rep().count("failed");
		if (std::isfinite(res)) {
			RTM_CHECK(st.conv_status == newton::MAXIT_EXCEEDED, "status", d);
			RTM_CHECK(st.iters >= o.maxit, "gave-up-early", d);
			RTM_CHECK(k < 2 || !(last < o.dx_delta * (1 - 1e-9)) , "false-failure", d);
			RTM_CHECK(k < 2 || !(res < o.tol * (1 - 1e-9)), "false-failure", d);
		}
	}
	if (fault == 1 && (long)k > S.nan_at) RTM_CHECK(!ok, "success-on-nan", d);
	if (!hostile && fault == 0 && rate < 0.45 && o.maxit == 2000) {
		RTM_CHECK(ok, "did-not-converge", d);
		// It learns the Jacobi matrix: far fewer steps than a plain fixed-point iteration needs.
		if (dist < 1 && o.max_step <= 0) RTM_CHECK(st.iters <= 15 + 12 * n, "slow", d);
		rep().count("guaranteed");
	}
	if (st.iters > 2) { rep().nontrivial(d); rep().sample(d); }
}
