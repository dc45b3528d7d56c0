// C19: the cyclic buffer against a bounded deque.
#include "common.hpp"
#include "multistep.hpp"
#include <deque>
using namespace rtm;

long n_cases(bool th) { return th ? 400000 : 40000; }

// Every live instance is accounted for, and knows its identity.
struct Counted {
	static long live;
	long v; Counted *self;
	Counted(long x = -1) : v(x), self(this) { ++live; }
	Counted(const Counted &o) : v(o.v), self(this) { if (o.self != &o) std::abort(); ++live; }
	Counted &operator=(const Counted &o) { if (o.self != &o || self != this) std::abort(); v = o.v; return *this; }
	~Counted() { if (self != this) std::abort(); self = nullptr; --live; }
	bool operator==(const Counted &o) const { return v == o.v; }
};
long Counted::live = 0;

static void make(Rng &, long n, long &x) { x = n; }
static void make(Rng &, long n, Counted &x) { x = Counted(n); }
static void make(Rng &r, long n, std::string &x) { x = std::string(r.i(0, 40), 'x') + std::to_string(n); }
static void make(Rng &r, long n, vec &x) { x.set_size(r.i(1, 6)); x.fill(double(n)); }
static bool eq(long a, long b) { return a == b; }
static bool eq(const Counted &a, const Counted &b) { return a == b; }
static bool eq(const std::string &a, const std::string &b) { return a == b; }
static bool eq(const vec &a, const vec &b) { return same_bits(a, b); }

template <typename T> struct Model { std::size_t cap; std::deque<T> q; }; // front = most recent

template <typename T> static bool compare(cyclic_buffer<T> &b, const Model<T> &m, const std::string &d)
{
	const cyclic_buffer<T> &cb = b;
	bool ok = true;
	auto chk = [&](bool c, const char *key) { if (!c) { ok = false; rep().violation(key, d); } };
	chk(b.size() == m.q.size(), "size");
	chk(b.empty() == m.q.empty(), "empty");
	chk(b.period() == m.cap, "capacity");
	for (std::size_t i = 0; i < m.q.size() && i < b.size() && ok; ++i) {
		chk(eq(b[i], m.q[i]), "element");
		chk(eq(cb[i], m.q[i]), "const-element");
	}
	std::size_t n = 0;
	for (auto it = b.begin(); it != b.end() && n <= m.q.size() && ok; ++it, ++n)
		chk(n < m.q.size() && eq(*it, m.q[n]), "iterator");
	chk(n == m.q.size() || !ok, "iterator-range");
	// Iterating is not a change.
	chk(b.size() == m.q.size(), "size-after-iteration");
	rep().count("states");
	return ok;
}

template <typename T> static void test(Rng &r, const char *type)
{
	std::size_t cap = r.pick(std::vector<int>{1, 1, 2, 3, 4, 5, 7, 16});
	typedef cyclic_buffer<T> B;
	std::vector<std::unique_ptr<B>> bs;
	std::vector<Model<T>> ms;
	bs.emplace_back(new B(cap)); ms.push_back({cap, {}});
	std::string h = cat(type, " cap=", cap, ":");
	int n = r.i(5, 60), wraps = 0; long next = 1;
	for (int k = 0; k < n; ++k) {
		std::size_t w = r.i(0, int(bs.size()) - 1);
		B &b = *bs[w]; Model<T> &m = ms[w];
		switch (r.i(0, 11)) {
		default: { // pushes, often several in a row
			int c = r.b(0.3) ? r.i(1, 2 * int(m.cap) + 2) : 1;
			for (int q = 0; q < c; ++q) {
				T x; make(r, next++, x);
				b.push_back(x);
				m.q.push_front(x);
				if (m.q.size() > m.cap) { m.q.pop_back(); ++wraps; }
			}
			h += cat(" push", w, "x", c);
			break;
		}
		case 5: if (m.q.size()) { // push an element of itself
			std::size_t i = r.i(0, int(m.q.size()) - 1);
			T x = m.q[i];
			b.push_back(T(b[i]));
			m.q.push_front(x);
			if (m.q.size() > m.cap) { m.q.pop_back(); ++wraps; }
			h += cat(" repush", w);
		} break;
		case 6: if (m.q.size()) { // write through the index
			std::size_t i = r.i(0, int(m.q.size()) - 1);
			T x; make(r, next++, x);
			b[i] = x; m.q[i] = x;
			h += cat(" write", w, "[", i, "]");
		} break;
		case 7: if (m.q.size()) { // write through an iterator
			std::size_t i = r.i(0, int(m.q.size()) - 1);
			T x; make(r, next++, x);
			auto it = b.begin();
			for (std::size_t q = 0; q < i; ++q) ++it;
			*it = x; m.q[i] = x;
			h += cat(" iwrite", w, "[", i, "]");
		} break;
		case 8: if (bs.size() < 4) {
			bs.emplace_back(new B(b)); Model<T> c = m; ms.push_back(c);
			h += cat(" copy", w);
		} break;
		case 9: {
			std::size_t v = r.i(0, int(bs.size()) - 1);
			*bs[v] = b; Model<T> c = m; ms[v] = c;
			h += cat(" assign", w, "->", v);
			break;
		}
		case 10: if (bs.size() < 4) {
			std::size_t c = r.i(1, 6);
			bs.emplace_back(new B(c)); ms.push_back({c, {}});
			h += cat(" new", c);
		} break;
		case 11: if (r.b(0.3)) {
			std::size_t c = r.i(1, 8);
			b.resize(c); m.cap = c; m.q.clear();
			h += cat(" resize", w, "=", c);
		} break;
		}
		rep().context = h;
		rep().count("operations");
		for (std::size_t q = 0; q < bs.size(); ++q) if (!compare(*bs[q], ms[q], h + cat(" (buffer ", q, ")"))) return;
		// Destroying a copy leaves the others alone.
		if (bs.size() > 1 && r.b(0.05)) { bs.erase(bs.begin()); ms.erase(ms.begin()); h += " drop0"; }
	}
	rep().count("overwritten", wraps);
	if (wraps) { rep().nontrivial(h); rep().sample(h); }
}

void run_case(long id, Rng &r)
{
	switch (id % 4) {
	case 0: test<long>(r, "long"); break;
	case 1: test<Counted>(r, "counted"); RTM_CHECK(Counted::live == 0, "instances", cat("instances left: ", Counted::live)); Counted::live = 0; rep().count("instance-balances"); break;
	case 2: test<std::string>(r, "string"); break;
	default: test<vec>(r, "vec"); break;
	}
}
