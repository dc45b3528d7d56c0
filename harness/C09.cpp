// C09: max_steps bounds the number of time steps and cuts the same trajectory.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 14000; }

void run_case(long id, Rng &r)
{
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 500);
	const char *fam = m.implicit ? "irk" : "erk";
	c.max_steps = r.b() ? -1 : -(long long)r.i(1, 1000);
	Trace tr; tr.budget = 400000;
	Traj full;
	try { full = run(p, c, tr); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	std::string d = pdesc(p) + " | " + c.desc();
	RTM_CHECK(full.status != ERROR_MAX_STEPS_EXCEEDED, cat("unlimited-but-exceeded/", fam), d);
	if (full.status != SUCCESS) { rep().count("not-successful"); return; }
	long need = (long)full.t.size() - 1;
	std::vector<long long> lims = {0, 1, need - 1, need, need + 1, 1000000000000ll};
	lims.push_back(r.i(0, std::max(1l, need)));
	lims.push_back(r.i(0, std::max(1l, need)));
	for (long long L : lims) {
		if (L < 0) continue;
		Config cl = c; cl.max_steps = L;
		Trace t2;
		Traj X = run(p, cl, t2);
		std::string e = cat(d, " limit=", L, " needed=", need, " -> status=", X.status, " rows=", X.t.size());
		rep().count("limited-runs");
		long got = (long)X.t.size() - 1;
		RTM_CHECK(got <= L, cat("too-many-steps/", fam), e);
		if (L >= need) {
			RTM_CHECK(X.status == SUCCESS, cat("spurious-limit/", fam), e);
			RTM_CHECK(got == need, cat("limit-changes-run/", fam), e);
		} else {
			rep().count("limits-hit");
			RTM_CHECK(X.status == ERROR_MAX_STEPS_EXCEEDED, cat("status/", fam), e);
			RTM_CHECK(got == L, cat("too-few-steps/", fam), e);
			RTM_CHECK(X.attempt <= full.attempt && X.fun_evals <= full.fun_evals, cat("extra-work/", fam), e);
			// The work past the last step counted is none at all.
			long acc_att = got + X.reject_err + X.reject_newton;
			RTM_CHECK(X.attempt == acc_att, cat("attempt-past-limit/", fam), e);
		}
		std::size_t q = std::min(X.t.size(), full.t.size());
		bool same = X.y.size() == X.t.size() && X.stages.size() == X.t.size();
		for (std::size_t k = 0; same && k < q; ++k)
			same = same_bits(X.t[k], full.t[k]) && same_bits(X.y[k], full.y[k]) && (k == 0 || same_bits(X.stages[k], full.stages[k])) && same_bits(X.err[k], full.err[k]);
		RTM_CHECK(same, cat("not-a-prefix/", fam), e);
	}
	if (need > 1) { rep().nontrivial(d); rep().sample(cat(d, " -> needs ", need, " steps; limits tried ", lims.size())); }
}
