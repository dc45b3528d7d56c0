// C08: the returned statistics agree with what actually happened.
#include "common.hpp"
#include <cmath>
using namespace rtm;

long n_cases(bool th) { return th ? 300000 : 20000; }

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (r.b(0.2)) c.max_steps = r.i(0, 60);
	if (m.implicit && r.b(0.4)) c.nmaxit = r.i(2, 12); // provoke Newton failures
	if (c.is_adaptive() && r.b(0.2)) { c.rtol = r.logu(1e-3, 0.3); c.atol = c.rtol; }
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 2000);
	if (c.is_adaptive() && r.b(0.3)) c.dt = (p.t1 - p.t0);
	Trace tr;
	tr.budget = 1000000;
	if (r.b(0.2)) {
		// Transient faults produce rejections of every kind.
		long a = r.i(0, 200), b = a + r.i(0, 6); bool jac = r.b(0.3); int what = r.i(1, 2);
		tr.fault = [=](char k, long i) { return (jac ? k == 'j' && i >= a / 10 && i <= b / 10 : k == 'f' && i >= a && i <= b) ? what : 0; };
	}
	long slow = r.b(0.004) ? r.i(2, 5) : 0;
	Problem ps = p;
	long slept = 0;
	if (slow) ps.f = [&p, &slept, slow](double t, const vec &y) { if (slept < slow) { ++slept; ::usleep(2000); } return p.f(t, y); };
	auto w0 = std::chrono::steady_clock::now();
	Traj X;
	try { X = run(ps, c, tr); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	double wall = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - w0).count();
	std::string d = cat(pdesc(p), " | ", c.desc(), " -> status=", X.status, " rows=", X.t.size(), " attempt=", X.attempt, " reject_err=", X.reject_err,
	                    " reject_newton=", X.reject_newton, " newton_success=", X.newton_success, " div=", X.n_div, " big=", X.n_big, " maxit=", X.n_maxit,
	                    " fun=", X.fun_evals, "/", tr.nfun, " jac=", X.jac_evals, "/", tr.njac, " frac=", X.accept_frac, " elapsed=", X.elapsed, " wall=", wall);
	const char *fam = m.implicit ? "irk" : "erk";
	long acc = (long)X.t.size() - 1;
	rep().count("trajectories");
	rep().count("fun-evals", tr.nfun);
	rep().count("rejections", X.reject_err + X.reject_newton);
	rep().count("newton-rejections", X.reject_newton);
	RTM_CHECK(X.fun_evals == tr.nfun, cat("fun_evals/", fam), d);
	if (m.implicit) RTM_CHECK(X.jac_evals == tr.njac, cat("jac_evals/", fam), d);
	// An attempt is accepted, rejected, or (once, last) aborts the integration.
	long open = X.attempt - acc - X.reject_err - X.reject_newton;
	if (c.is_adaptive() || X.status != GENERAL_ERROR) RTM_CHECK(open == 0, cat("attempts/", fam), d);
	else RTM_CHECK(open == 0 || open == 1, cat("attempts/", fam), d);
	if (!c.is_adaptive()) RTM_CHECK(X.reject_err == 0 && X.reject_newton == 0, cat("rejects-constant-step/", fam), d);
	if (m.implicit) {
		RTM_CHECK(X.newton_success >= acc + X.reject_err && X.newton_success <= X.attempt - X.reject_newton, cat("newton_success/", fam), d);
		RTM_CHECK(X.n_div + X.n_big + X.n_maxit <= X.reject_newton && X.n_div >= 0 && X.n_big >= 0 && X.n_maxit >= 0, cat("newton-failures/", fam), d);
		// Every attempt linearises at least once and solves for s stages at least once.
		RTM_CHECK(X.jac_evals >= X.attempt, cat("jac-per-attempt/", fam), d);
	}
	double frac = X.attempt > 0 ? double(acc) / X.attempt : 0.0;
	RTM_CHECK(std::fabs(X.accept_frac - frac) <= 1e-12, cat("accept_frac/", fam), d);
	// Milliseconds. Generous: the clock is the wall clock.
	RTM_CHECK(X.elapsed >= 0 && X.elapsed <= wall + 5 + 0.1 * wall, cat("elapsed_time/", fam), d);
	if (slow && slept) { RTM_CHECK(X.elapsed >= 1.5 * slept, cat("elapsed_time/", fam), d); rep().count("slow-runs"); }
	if (acc > 1) { rep().nontrivial(pdesc(p) + c.desc()); rep().sample(d); }
}
