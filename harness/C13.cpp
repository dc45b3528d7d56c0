// C13: integrations do not influence each other: repeated, nested (a
// right-hand side that integrates) or in concurrent threads, each returns
// exactly what it returns alone. With --extra threads: the threaded part only,
// for the race detector.
#include "jobs.hpp"
#include <atomic>
#include <thread>
using namespace rtm;

static bool only_threads() { return opt().extra == "threads"; }
long n_cases(bool th) { return only_threads() ? (th ? 20000 : 1200) : (th ? 200000 : 4000); }

void run_case(long id, Rng &r)
{
	int kind = only_threads() ? 2 : int(id % 4 == 3 ? 2 : id % 3);
	if (kind == 0) {
		// Again, after other work in between.
		Job a = make(r), b = make(r);
		std::string ra = work(a), rb = work(b), ra2 = work(a), rb2 = work(b);
		RTM_CHECK(ra == ra2, "not-repeatable", a.desc() + " after " + b.desc());
		RTM_CHECK(rb == rb2, "not-repeatable", b.desc() + " after " + a.desc());
		rep().count("repeated"); rep().nontrivial(a.desc() + b.desc());
	} else if (kind == 1) {
		// A right-hand side that does other work half way.
		Job a = make(r), b = make(r);
		std::string ra = work(a), rb = work(b);
		Job n = a;
		auto f = a.p.f; auto J = a.p.J;
		long calls = 0, at = r.i(0, 40), every = r.i(7, 60), inner = 0; bool bad = false;
		n.p.f = [&](double t, const vec &y) {
			long c = calls++;
			if (inner < 6 && c >= at && (c - at) % every == 0) { ++inner; bool was = in_thread(); in_thread() = true; if (work(b) != rb) bad = true; in_thread() = was; }
			return f(t, y);
		};
		n.p.J = [&](double t, const vec &y) {
			if (inner < 6 && calls % every == at % every) { ++inner; if (work(b) != rb) bad = true; }
			return J(t, y);
		};
		std::string rn = work(n);
		RTM_CHECK(rn == ra, "disturbed-by-nested", a.desc() + " with, inside its right-hand side, " + b.desc());
		RTM_CHECK(!bad, "nested-disturbed", b.desc() + " inside the right-hand side of " + a.desc());
		rep().count("nested", inner); if (inner) rep().nontrivial(a.desc() + b.desc());
	} else {
		int T = 4, each = 3;
		std::vector<Job> jobs; std::vector<std::string> seq, par(T * each);
		for (int k = 0; k < T * each; ++k) jobs.push_back(make(r));
		// Alone first, or last, so that threads also meet anything not yet set up.
		bool first = r.b();
		if (first) for (auto &j : jobs) seq.push_back(work(j));
		std::atomic<int> go(0);
		std::vector<std::thread> th;
		for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
			in_thread() = true;
			go.fetch_add(1, std::memory_order_relaxed);
			for (long spin = 0; spin < 100000 && go.load(std::memory_order_relaxed) < T; ++spin) std::this_thread::yield();
			for (int k = 0; k < each; ++k) par[t * each + k] = work(jobs[t * each + k]);
		});
		for (auto &t : th) t.join();
		if (!first) for (auto &j : jobs) seq.push_back(work(j));
		for (int k = 0; k < T * each; ++k) RTM_CHECK(seq[k] == par[k], "disturbed-by-threads", jobs[k].desc());
		rep().count("concurrent-jobs", T * each);
		std::string sig; for (auto &j : jobs) sig += j.desc();
		rep().nontrivial(sig); rep().sample(cat(T, " threads x ", each, " jobs, first: ", jobs[0].desc()));
	}
}
