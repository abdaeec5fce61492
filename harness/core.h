// Core of the property-based testing harness: choice tape, case context,
// driver (parallel run, crash isolation, shrinking, replay).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

struct isl_ctx;

namespace vp {

struct FailEx { std::string kind, msg; };
struct DiscardEx { std::string why; };

// Every random choice of a case goes through a tape of bounded draws, so that
// a case is replayed from its recorded draws and shrunk by editing them.
// The draw 0 is always the simplest choice; an exhausted tape yields 0.
class Tape {
public:
	explicit Tape(uint64_t seed) : random_(true) { s_ = seed; }
	explicit Tape(std::vector<uint64_t> rec) : rec_(std::move(rec)), random_(false) {}
	uint64_t below(uint64_t n);
	int range(int lo, int hi);
	bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
	template <class V> auto &pick(V &v) { return v[below(v.size())]; }
	// weighted choice; weight list w
	int weighted(const std::vector<int> &w);
	const std::vector<uint64_t> &recorded() const { return random_ ? rec_ : used_; }
	size_t draws() const { return recorded().size(); }
private:
	std::vector<uint64_t> rec_, used_;
	size_t pos_ = 0;
	bool random_;
	uint64_t s_;
	uint64_t next();
};

struct Stats {
	std::map<std::string, long> labels;
	long steps = 0;
};

// The log of a case; in an isolated run it is mirrored to shared memory so
// that it survives a crash.
struct LogBuf : std::stringbuf {
	std::streamsize xsputn(const char *p, std::streamsize n) override;
	int overflow(int ch) override;
};
struct Log : std::ostream {
	LogBuf b;
	Log() : std::ostream(nullptr) { rdbuf(&b); }
	std::string str() const { return b.str(); }
};

struct Case {
	Tape t;
	isl_ctx *ctx = nullptr;
	Log log;
	bool nontrivial = false;
	bool verbose = false;
	uint64_t index = 0;
	Stats *st = nullptr;
	std::shared_ptr<void> genmem;      // memory of the set generator
	explicit Case(Tape tt) : t(std::move(tt)) {}
	void label(const std::string &l) { if (st) st->labels[l]++; }
	[[noreturn]] void fail(const std::string &kind, const std::string &msg) { throw FailEx{kind, msg}; }
	[[noreturn]] void discard(const std::string &why) { throw DiscardEx{why}; }
	void step() { if (st) st->steps++; }
};

struct Prop {
	const char *id;
	const char *rule;                 // how cases are made / non-triviality
	void (*run)(Case &);
	long quick_cases, thorough_cases;
	unsigned long max_ops = 400000;   // isl operation limit per case (0: none)
	bool own_ctx = false;             // the case allocates contexts itself
	int hang_cpu_s = 60;
	bool leak_check = false;
	int hang_tol = 0;                 // cases over the CPU limit that are set aside, not reported
};
extern thread_local Case *cur_case;   // case being run
extern Prop the_prop;                 // defined by the property module

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string &s);

} // namespace vp
