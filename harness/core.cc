#include "core.h"
#include <isl/ctx.h>
#include <isl/options.h>
#include <atomic>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vp {

uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0xD1B54A32D192ED03ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
	return h;
}
uint64_t Tape::next()
{
	s_ += 0x9E3779B97F4A7C15ull;
	uint64_t z = s_;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
// Mirror of a running isolated case (log and draws), readable after a crash.
struct Iso {
	uint32_t nlog, nt;
	char log[1 << 16];
	uint64_t tape[1 << 16];
};
static Iso *iso;
static bool echo_log;
static void iso_log(const char *p, size_t n)
{
	if (echo_log) fwrite(p, 1, n, stderr);
	if (!iso) return;
	if (iso->nlog + n > sizeof iso->log) n = sizeof iso->log - iso->nlog;
	memcpy(iso->log + iso->nlog, p, n);
	iso->nlog += n;
}
static void iso_draw(uint64_t v) { if (iso && iso->nt < sizeof iso->tape / 8) iso->tape[iso->nt++] = v; }
std::streamsize LogBuf::xsputn(const char *p, std::streamsize n) { iso_log(p, n); return std::stringbuf::xsputn(p, n); }
int LogBuf::overflow(int ch) { char x = (char)ch; if (ch != EOF) iso_log(&x, 1); return std::stringbuf::overflow(ch); }

uint64_t Tape::below(uint64_t n)
{
	if (n <= 1) return 0;
	if (random_) {
		uint64_t v = next() % n;
		rec_.push_back(v);
		iso_draw(v);
		return v;
	}
	uint64_t v = pos_ < rec_.size() ? rec_[pos_] % n : 0;
	pos_++;
	used_.push_back(v);
	iso_draw(v);
	return v;
}
int Tape::range(int lo, int hi)
{
	uint64_t n = (uint64_t)(hi - lo) + 1;
	uint64_t v = below(n);
	if (lo >= 0) return lo + (int)v;
	if (hi <= 0) return hi - (int)v;
	int m = std::min(-lo, hi);
	if (v <= (uint64_t)(2 * m))
		return (v & 1) ? (int)((v + 1) / 2) : -(int)(v / 2);
	if (hi > -lo) return (int)(v - m);
	return -(int)(v - m);
}
int Tape::weighted(const std::vector<int> &w)
{
	int tot = 0;
	for (int x : w) tot += x;
	int v = (int)below(tot);
	for (size_t i = 0; i < w.size(); ++i) {
		if (v < w[i]) return (int)i;
		v -= w[i];
	}
	return 0;
}

} // namespace vp

using namespace vp;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif
#ifdef VP_ASAN
extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
		"handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12:"
		"quarantine_size_mb=24:max_allocation_size_mb=4000";
}
extern "C" const char *__ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=78";
}
#endif
extern "C" long vp_live_allocs() __attribute__((weak));

enum Outcome { PASS = 0, FAIL = 1, DISCARD = 2 };

struct CaseResult {
	Outcome out = PASS;
	std::string kind, msg, desc;
	std::vector<uint64_t> tape;
	bool nontrivial = false;
};

static isl_ctx *make_ctx(unsigned long max_ops)
{
	isl_ctx *ctx = isl_ctx_alloc();
	isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
	if (max_ops) isl_ctx_set_max_operations(ctx, max_ops);
	return ctx;
}

namespace vp { extern thread_local long omega_work; }
thread_local Case *vp::cur_case;

static CaseResult run_one(Tape tape, uint64_t index, Stats *st, bool verbose)
{
	CaseResult r;
	Case c(std::move(tape));
	c.index = index;
	cur_case = &c;
	omega_work = 0;
	c.st = st;
	c.verbose = verbose;
	long before = 0;
	if (the_prop.leak_check && vp_live_allocs) before = vp_live_allocs();
	if (!the_prop.own_ctx) c.ctx = make_ctx(the_prop.max_ops);
	try {
		the_prop.run(c);
	} catch (FailEx &e) {
		r.out = FAIL; r.kind = e.kind; r.msg = e.msg;
	} catch (DiscardEx &e) {
		r.out = DISCARD; r.kind = e.why;
	}
	if (c.ctx) {
		isl_ctx_set_max_operations(c.ctx, 0);
		isl_ctx_reset_error(c.ctx);
		isl_ctx_free(c.ctx);
	}
	if (the_prop.leak_check && vp_live_allocs && r.out != FAIL && vp_live_allocs() != before) {
		r.out = FAIL;
		r.kind = "leak";
		r.msg = std::to_string(vp_live_allocs() - before) + " memory blocks are still allocated after everything has been released";
	}
	r.desc = c.log.str();
	r.tape = c.t.recorded();
	r.nontrivial = c.nontrivial;
	return r;
}

// ---------------------------------------------------------------- json
static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	char buf[8];
	for (unsigned char ch : s) {
		if (ch == '"') o += "\\\"";
		else if (ch == '\\') o += "\\\\";
		else if (ch == '\n') o += "\\n";
		else if (ch < 0x20 || ch >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", ch); o += buf; }
		else o += ch;
	}
	return o + "\"";
}
static std::string jtape(const std::vector<uint64_t> &t)
{
	std::string o = "[";
	for (size_t i = 0; i < t.size(); ++i) { if (i) o += ","; o += std::to_string(t[i]); }
	return o + "]";
}

// ---------------------------------------------------------------- workers
struct Slot {
	std::atomic<int64_t> cur;
	std::atomic<int> state;   // 0 idle 1 running 2 fail written 3 hang
	std::atomic<long> done, nontriv, discards, steps;
};
struct Shared {
	std::atomic<int64_t> next;
	std::atomic<int> stop;
	std::atomic<long> max_case_ms;
	Slot slot[64];
};
static Shared *sh;
static int my_slot = -1;

static void on_prof(int)
{
	if (my_slot >= 0) sh->slot[my_slot].state = 3;
	_exit(99);
}
static void arm_cpu(int secs)
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, nullptr);
}
static double cpu_now()
{
	struct rusage u;
	getrusage(RUSAGE_SELF, &u);
	return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6;
}
static double wall_now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void limit_memory()
{
#if !defined(VP_ASAN) && !defined(VP_TSAN)
	struct rlimit r = {3ul << 30, 3ul << 30};
	setrlimit(RLIMIT_AS, &r);
#endif
}
static void mute(const std::string &to)
{
	limit_memory();
	int fd = open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
}

static uint64_t case_seed(uint64_t seed, uint64_t i)
{
	return mix(mix(seed, hash_str(the_prop.id)), i);
}

static std::string out_dir;
static void write_result(const std::string &path, const CaseResult &r, int64_t idx)
{
	std::ofstream f(path + ".tmp");
	f << "{\"case\":" << idx << ",\"kind\":" << jstr(r.kind) << ",\"msg\":" << jstr(r.msg)
	  << ",\"desc\":" << jstr(r.desc) << ",\"tape\":" << jtape(r.tape) << "}\n";
	f.close();
	rename((path + ".tmp").c_str(), path.c_str());
}

static void worker(int w, int gen, uint64_t seed, int64_t ncases, long chunk)
{
	my_slot = w;
	signal(SIGPROF, on_prof);
	mute(out_dir + "/err." + std::to_string(w));
	Slot &s = sh->slot[w];
	Stats st;
	std::vector<uint64_t> hashes;
	std::map<std::string, long> disc;
	std::vector<std::string> samples;
	long n = 0;
	int rc = 0;
	while (n < chunk && !sh->stop) {
		int64_t i = sh->next.fetch_add(1);
		if (i >= ncases) break;
		s.cur = i;
		s.state = 1;
		arm_cpu(the_prop.hang_cpu_s);
		double t0 = cpu_now();
		CaseResult r = run_one(Tape(case_seed(seed, i)), i, &st, false);
		long ms = (long)((cpu_now() - t0) * 1000);
		long m = sh->max_case_ms;
		while (ms > m && !sh->max_case_ms.compare_exchange_weak(m, ms)) ;
		arm_cpu(0);
		s.done++;
		n++;
		if (getenv("VP_TRACE_SLOW") && ms > atol(getenv("VP_TRACE_SLOW"))) {
			FILE *tf = fopen((out_dir + "/slow").c_str(), "a");
			fprintf(tf, "case %ld %ld ms out %d %s\n%s\n", (long)i, ms, r.out, r.kind.c_str(), r.desc.c_str());
			fclose(tf);
		}
		if (r.out == DISCARD) { s.discards++; disc[r.kind]++; }
		else if (r.nontrivial) {
			s.nontriv++;
			std::string tb((const char *)r.tape.data(), r.tape.size() * 8);
			hashes.push_back(hash_str(tb));
			if (samples.size() < 2 || (samples.size() < 4 && n % 97 == 0))
				if (r.desc.size() < 3000) samples.push_back(r.desc);
		}
		if (r.out == FAIL) {
			write_result(out_dir + "/fail." + std::to_string(i), r, i);
			s.state = 2;
			if (getenv("VP_KEEP_GOING")) { s.state = 0; continue; }
			sh->stop = 1;
			rc = 3;
			break;
		}
		s.state = 0;
	}
	s.steps += st.steps;
	std::string base = out_dir + "/w" + std::to_string(w) + "." + std::to_string(gen);
	std::ofstream hf(base + ".hash", std::ios::binary);
	hf.write((const char *)hashes.data(), hashes.size() * 8);
	hf.close();
	std::ofstream f(base + ".json");
	f << "{\"labels\":{";
	bool first = true;
	for (auto &p : st.labels) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
	f << "},\"discards\":{";
	first = true;
	for (auto &p : disc) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
	f << "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << jstr(samples[i]);
	f << "]}\n";
	f.close();
	_exit(rc);
}

// Runs one tape in a child; returns outcome, including crashes and hangs.
static CaseResult run_isolated(const std::vector<uint64_t> &tape, int64_t idx, bool random, uint64_t rseed,
	int cpu, const std::string &errfile)
{
	std::string path = out_dir + "/iso.json." + std::to_string(getpid());
	unlink(path.c_str());
	static Iso *shared = (Iso *)mmap(nullptr, sizeof(Iso), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shared->nlog = shared->nt = 0;
	pid_t pid = fork();
	if (pid == 0) {
		iso = shared;
		my_slot = -1;
		signal(SIGPROF, on_prof);
		arm_cpu(cpu);
		mute(errfile);
		CaseResult r = run_one(random ? Tape(rseed) : Tape(tape), idx, nullptr, false);
		FILE *f = fopen(path.c_str(), "wb");
		auto ws = [&](const std::string &s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); };
		int o = r.out;
		fwrite(&o, sizeof o, 1, f);
		ws(r.kind); ws(r.msg); ws(r.desc);
		ws(std::string((const char *)r.tape.data(), r.tape.size() * 8));
		fclose(f);
		_exit(0);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	CaseResult r;
	r.tape = tape;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
		FILE *f = fopen(path.c_str(), "rb");
		if (!f) { r.out = DISCARD; return r; }
		auto rs = [&]() { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) n = 0; std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) s.clear(); return s; };
		int o = 0;
		if (fread(&o, sizeof o, 1, f) != 1) o = DISCARD;
		r.out = (Outcome)o;
		r.kind = rs(); r.msg = rs(); r.desc = rs();
		std::string tb = rs();
		r.tape.assign((const uint64_t *)tb.data(), (const uint64_t *)(tb.data() + tb.size()));
		fclose(f);
		unlink(path.c_str());
		return r;
	}
	r.out = FAIL;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 99) { r.kind = "hang"; r.msg = "no termination within the CPU limit"; }
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { r.kind = "crash:asan"; }
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 78) { r.kind = "crash:ubsan"; }
	else if (WIFEXITED(status)) { r.kind = "crash:exit" + std::to_string(WEXITSTATUS(status)); }
	else { r.kind = "crash:signal" + std::to_string(WTERMSIG(status)); }
	if (r.kind.substr(0, 5) == "crash") {
		std::ifstream f(errfile);
		std::stringstream ss; ss << f.rdbuf();
		std::string e = ss.str();
		r.msg = e.size() > 3000 ? e.substr(0, 3000) : e;
	}
	r.desc = std::string(shared->log, shared->nlog);
	if (shared->nt < sizeof shared->tape / 8) r.tape.assign(shared->tape, shared->tape + shared->nt);
	return r;
}

static bool same_kind(const std::string &a, const std::string &b)
{
	if (a.compare(0, 5, "crash") == 0 && b.compare(0, 5, "crash") == 0) return true;
	return a == b;
}

static CaseResult shrink(CaseResult best, int64_t idx, double budget_s, int max_try)
{
	double t0 = wall_now();
	int tries = 0;
	std::string err = out_dir + "/shrink.err";
	int cpu = best.kind == "hang" ? 8 : the_prop.hang_cpu_s;
	auto attempt = [&](const std::vector<uint64_t> &cand) {
		if (wall_now() - t0 > budget_s || tries >= max_try) return false;
		tries++;
		CaseResult r = run_isolated(cand, idx, false, 0, cpu, err);
		if (r.out != FAIL || !same_kind(r.kind, best.kind)) return false;
		std::vector<uint64_t> nt = r.tape;
		while (!nt.empty() && nt.back() == 0) nt.pop_back();
		bool smaller = nt.size() < best.tape.size() ||
			(nt.size() == best.tape.size() && nt < best.tape);
		if (!smaller) return false;
		r.tape = nt;
		best = r;
		return true;
	};
	bool progress = true;
	while (progress && wall_now() - t0 < budget_s && tries < max_try) {
		progress = false;
		for (size_t len = std::max<size_t>(1, best.tape.size() / 2);; len = len / 2) {
			for (size_t i = 0; i + len <= best.tape.size();) {
				auto c = best.tape;
				c.erase(c.begin() + i, c.begin() + i + len);
				if (attempt(c)) progress = true; else i += std::max<size_t>(1, len / 2 ? len / 2 : 1);
				if (wall_now() - t0 > budget_s || tries >= max_try) break;
			}
			if (len <= 1 || wall_now() - t0 > budget_s || tries >= max_try) break;
		}
		for (size_t i = 0; i < best.tape.size(); ++i) {
			if (best.tape[i] == 0) continue;
			auto c = best.tape;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			if (i < best.tape.size() && best.tape[i] > 1) {
				c = best.tape; c[i] /= 2;
				if (attempt(c)) progress = true;
				else { c = best.tape; c[i] -= 1; if (attempt(c)) progress = true; }
			}
			if (wall_now() - t0 > budget_s || tries >= max_try) break;
		}
	}
	fprintf(stderr, "shrink: %d attempts, tape length %zu\n", tries, best.tape.size());
	return best;
}

static std::vector<uint64_t> read_tape(const std::string &path)
{
	std::ifstream f(path);
	std::stringstream ss; ss << f.rdbuf();
	std::string s = ss.str();
	size_t p = s.find("\"tape\":");
	std::vector<uint64_t> t;
	if (p == std::string::npos) return t;
	p = s.find('[', p);
	size_t e = s.find(']', p);
	std::stringstream in(s.substr(p + 1, e - p - 1));
	std::string tok;
	while (std::getline(in, tok, ',')) if (!tok.empty()) t.push_back(strtoull(tok.c_str(), 0, 10));
	return t;
}

static void usage() { fprintf(stderr, "usage: run --seed S --cases N --jobs J --out DIR --wall SECS | replay FILE | case I --seed S | minimise FILE\n"); exit(2); }

#ifndef VP_LIBFUZZER
int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	uint64_t seed = 1;
	int64_t ncases = 0;
	int jobs = 8;
	double wall = 600;
	long chunk = 4000;
	std::string file;
	out_dir = "/tmp";
	for (int i = 2; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
		if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases") ncases = atoll(val().c_str());
		else if (a == "--jobs") jobs = atoi(val().c_str());
		else if (a == "--out") out_dir = val();
		else if (a == "--wall") wall = atof(val().c_str());
		else if (a == "--chunk") chunk = atol(val().c_str());
		else file = a;
	}
	if (jobs > 64) jobs = 64;
	echo_log = getenv("VP_ECHO") != nullptr;
	if (mode == "info") {
		printf("{\"id\":%s,\"rule\":%s,\"quick\":%ld,\"thorough\":%ld}\n", jstr(the_prop.id).c_str(), jstr(the_prop.rule).c_str(), the_prop.quick_cases, the_prop.thorough_cases);
		return 0;
	}
	if (mode == "case") {  // run one random case in-process, for debugging
		CaseResult r = run_one(Tape(case_seed(seed, atoll(file.c_str()))), atoll(file.c_str()), nullptr, true);
		printf("outcome %d kind %s\n%s\n%s\nnontrivial %d draws %zu\n", r.out, r.kind.c_str(), r.msg.c_str(), r.desc.c_str(), r.nontrivial, r.tape.size());
		return r.out == FAIL;
	}
	if (mode == "replay") {
		CaseResult r = run_isolated(read_tape(file), -1, false, 0, the_prop.hang_cpu_s, out_dir + "/replay.err." + std::to_string(getpid()));
		printf("{\"outcome\":%d,\"kind\":%s,\"msg\":%s,\"desc\":%s}\n", r.out, jstr(r.kind).c_str(), jstr(r.msg).c_str(), jstr(r.desc).c_str());
		unlink((out_dir + "/replay.err." + std::to_string(getpid())).c_str());
		return r.out == FAIL ? 1 : 0;
	}
	if (mode == "direct") {   // run a replay file in this process
		CaseResult r = run_one(Tape(read_tape(file)), -1, nullptr, true);
		printf("outcome %d kind %s\n%s\n%s\n", r.out, r.kind.c_str(), r.msg.c_str(), r.desc.c_str());
		return r.out == FAIL;
	}
	if (mode == "minimise") {
		CaseResult r = run_isolated(read_tape(file), -1, false, 0, the_prop.hang_cpu_s, out_dir + "/min.err");
		if (r.out != FAIL) { fprintf(stderr, "does not fail\n"); return 2; }
		r = shrink(r, -1, wall, 100000);
		write_result(file + ".min", r, -1);
		printf("%s\n%s\n%s\n", r.kind.c_str(), r.msg.c_str(), r.desc.c_str());
		return 0;
	}
	if (mode != "run") usage();

	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pids(jobs, 0);
	std::vector<int> gens(jobs, 0);
	double t0 = wall_now();
	auto spawn = [&](int w) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) worker(w, gens[w], seed, ncases, chunk);
		pids[w] = pid;
		gens[w]++;
	};
	for (int w = 0; w < jobs; ++w) spawn(w);
	int running = jobs;
	bool early = false;
	int hung = 0;
	std::vector<std::pair<int64_t, std::string>> crashes;
	while (running > 0) {
		int status;
		pid_t pid = waitpid(-1, &status, WNOHANG);
		if (pid <= 0) {
			usleep(5000);
			if (wall_now() - t0 > wall && !sh->stop) { early = true; sh->stop = 1; }
			if (wall_now() - t0 > wall + 30)      // a worker is stuck in a long case
				for (int w = 0; w < jobs; ++w) if (pids[w] > 0) kill(pids[w], SIGKILL);
			continue;
		}
		for (int w = 0; w < jobs; ++w) {
			if (pids[w] != pid) continue;
			pids[w] = 0;
			if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && early) { running--; continue; }
			if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 3)) {
				if (!sh->stop && sh->next < ncases) spawn(w); else running--;
				continue;
			}
			// crashed or hung in case cur
			std::string k = sh->slot[w].state == 3 ? "hang" : "crash";
			if (k == "hang" && hung < the_prop.hang_tol && !getenv("VP_KEEP_GOING")) {
				fprintf(stderr, "case %ld set aside: over the CPU limit\n", (long)(int64_t)sh->slot[w].cur);
				hung++;
				if (!sh->stop && sh->next < ncases) spawn(w); else running--;
				continue;
			}
			crashes.push_back({(int64_t)sh->slot[w].cur, k});
			if (getenv("VP_KEEP_GOING")) {
				fprintf(stderr, "%s in case %ld\n", k.c_str(), (long)(int64_t)sh->slot[w].cur);
				if (sh->next < ncases) spawn(w); else running--;
			} else {
				sh->stop = 1;
				running--;
			}
		}
	}
	long done = 0, nontriv = 0, disc = 0, steps = 0;
	for (int w = 0; w < jobs; ++w) {
		done += sh->slot[w].done; nontriv += sh->slot[w].nontriv;
		disc += sh->slot[w].discards; steps += sh->slot[w].steps;
	}
	double t1 = wall_now();
	// smallest failing case
	int64_t fidx = -1;
	for (int64_t i = 0, n = sh->next; i < n && i < ncases; ++i) {
		struct stat *dummy = nullptr; (void)dummy;
		if (access((out_dir + "/fail." + std::to_string(i)).c_str(), R_OK) == 0) { fidx = i; break; }
	}
	for (auto &p : crashes) if (fidx < 0 || p.first < fidx) fidx = p.first;
	std::string fail_file;
	bool confirmed = false;
	std::string fkind, fmsg;
	if (fidx >= 0) {
		std::string err = out_dir + "/confirm.err";
		CaseResult r = run_isolated({}, fidx, true, case_seed(seed, fidx), the_prop.hang_cpu_s, err);
		if (r.out == FAIL) {
			// a crashed run did not return its tape: regenerate it by shrinking from
			// the recorded prefix written by the child is impossible, so use a long tape
			if (r.tape.empty()) {
				// draw tape eagerly: raw 64-bit values reduce modulo n on replay exactly as in random mode
				uint64_t s = case_seed(seed, fidx);
				std::vector<uint64_t> raw;
				for (int i = 0; i < 20000; ++i) {
					s += 0x9E3779B97F4A7C15ull;
					uint64_t z = s;
					z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
					z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
					raw.push_back(z ^ (z >> 31));
				}
				r.tape = raw;
			}
			int again = 0;
			for (int k = 0; k < 2; ++k) {
				CaseResult q = run_isolated(r.tape, fidx, false, 0, the_prop.hang_cpu_s, err);
				if (q.out == FAIL) again++;
			}
			confirmed = again == 2;
			CaseResult best = r;
			if (!getenv("VP_NO_SHRINK")) best = shrink(r, fidx, 60, 1500);
			fail_file = out_dir + "/violation.json";
			write_result(fail_file, best, fidx);
			fkind = best.kind; fmsg = best.msg;
		} else fmsg = "not reproduced in isolation";
	}
	printf("{\"done\":%ld,\"nontrivial\":%ld,\"discards\":%ld,\"steps\":%ld,\"wall\":%.2f,\"early\":%s,"
	       "\"max_case_ms\":%ld,\"hung\":%d,\"fail_case\":%ld,\"confirmed\":%s,\"fail_file\":%s,\"kind\":%s,\"msg\":%s,\"rule\":%s}\n",
	       done, nontriv, disc, steps, t1 - t0, early ? "true" : "false", (long)sh->max_case_ms, hung, (long)fidx,
	       confirmed ? "true" : "false", jstr(fail_file).c_str(), jstr(fkind).c_str(), jstr(fmsg).c_str(), jstr(the_prop.rule).c_str());
	return fidx >= 0 ? 1 : 0;
}
#endif
