// C10: output options only decide what is reported, never what is computed.
#include "common.hpp"
using namespace rtm;

long n_cases(bool th) { return th ? 200000 : 14000; }

static std::string row(double t, const vec &y, int prec)
{
	std::ostringstream o; o.precision(prec);
	o << t;
	for (double v : y) o << " " << v;
	o << "\n";
	return o.str();
}

static void option_bits()
{
	std::ostringstream s;
	for (int start = 0; start < 4; ++start) for (int ops = 0; ops < 64; ++ops) {
		output_options o; o.output_mode = start;
		bool st = start & 1, fi = start & 2;
		for (int q = 0, v = ops; q < 3; ++q, v /= 4) switch (v % 4) {
			case 0: o.enable_store_in_vectors(); st = true; break;
			case 1: o.disable_store_in_vectors(); st = false; break;
			case 2: o.set_output_stream(s); fi = true; break;
			default: break;
		}
		RTM_CHECK(o.store_in_vectors() == st && o.write_to_file() == fi, "option-bits", cat("start=", start, " ops=", ops));
		if (fi && start < 2) RTM_CHECK(o.output_stream == &s, "option-stream", cat("start=", start, " ops=", ops));
		rep().count("option-sequences");
	}
	output_options def;
	RTM_CHECK(def.store_in_vectors() && !def.write_to_file() && def.output_interval == 1, "option-defaults", "");
}

void run_case(long id, Rng &r)
{
	if (id == 0) option_bits();
	const auto &ms = all_methods();
	const Method &m = ms[id % ms.size()];
	Problem p = p_any(r, m.implicit);
	Config c = random_config(r, p, m);
	if (!c.is_adaptive()) c.dt = std::max(c.dt, (p.t1 - p.t0) / 500);
	if (r.b(0.3)) c.max_steps = r.i(0, 50);
	c.out_interval = 0; c.time_internals = false;
	const char *fam = m.implicit ? "irk" : "erk";
	Trace tr; tr.budget = 400000;
	Traj R;
	try { R = run(p, c, tr); } catch (const BudgetExceeded &) { rep().count("over-budget"); return; }
	long steps = (long)R.t.size() - 1;
	for (int v = 0; v < 4; ++v) {
		Config q = c;
		q.store = v == 0 ? false : r.b(0.7);
		q.file = v == 0 ? true : r.b(0.7);
		q.output_interval = v == 1 ? 1 : r.b(0.8) ? r.i(1, 12) : r.i(1, 2 * std::max(1l, steps) + 2);
		q.out_interval = r.b() ? r.i(1, 20) : 0;
		q.time_internals = r.b(0.3);
		Trace t2;
		Traj X = run(p, q, t2);
		std::string d = cat(pdesc(p), " | ", q.desc(), " steps=", steps);
		rep().count("variant-runs");
		RTM_CHECK(X.status == R.status, cat("status/", fam), d);
		RTM_CHECK(t2.nfun == tr.nfun && t2.njac == tr.njac, cat("work-differs/", fam), cat(d, " fun ", tr.nfun, " -> ", t2.nfun));
		RTM_CHECK(X.attempt == R.attempt && X.reject_err == R.reject_err && X.reject_newton == R.reject_newton && X.fun_evals == R.fun_evals && X.jac_evals == R.jac_evals && X.newton_success == R.newton_success && same_bits(X.accept_frac, R.accept_frac), cat("counters/", fam), d);
		// Which steps are reported: every output_interval-th.
		std::vector<std::size_t> want(1, 0);
		for (long k = 1; k <= steps; ++k) if (k % (long)q.output_interval == 0) want.push_back(k);
		if (q.store) {
			bool ok = X.t.size() == want.size() && X.y.size() == want.size() && X.stages.size() == want.size() && X.err.size() == want.size() && X.err_est.size() == want.size();
			RTM_CHECK(ok, cat("stored-rows/", fam), cat(d, " rows=", X.t.size(), " y=", X.y.size(), " stages=", X.stages.size(), " expected ", want.size()));
			for (std::size_t k = 0; ok && k < want.size(); ++k) {
				std::size_t w = want[k];
				bool s = same_bits(X.t[k], R.t[w]) && same_bits(X.y[k], R.y[w]) && (w == 0 || same_bits(X.stages[k], R.stages[w])) && same_bits(X.err[k], R.err[w]) && same_bits(X.err_est[k], R.err_est[w]);
				RTM_CHECK(s, cat("stored-values/", fam), cat(d, " row ", k, " of step ", w));
				rep().count("rows-compared");
			}
		} else RTM_CHECK(X.t.size() <= 1 && X.y.size() <= 1 && X.stages.size() <= 1 && X.err.size() <= 1, cat("stored-unasked/", fam), cat(d, " rows=", X.t.size()));
		if (q.file) {
			std::string exp, exp0 = row(R.t[0], R.y[0], 17);
			for (std::size_t k = 1; k < want.size(); ++k) exp += row(R.t[want[k]], R.y[want[k]], 17);
			// (Whether the initial value is a row of the file is left open.)
			RTM_CHECK(X.file == exp || X.file == exp0 + exp, cat("file/", fam), cat(d, " file of ", X.file.size(), " bytes, expected ", exp.size(), ": ", X.file.substr(0, 200)));
			rep().count("files");
		} else RTM_CHECK(X.file.empty(), cat("file-unasked/", fam), d);
	}
	if (steps > 1) { rep().nontrivial(pdesc(p) + c.desc()); rep().sample(cat(pdesc(p), " | ", c.desc(), " steps=", steps, ", 4 output variants")); }
}
