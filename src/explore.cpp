// The explorer: exhaustive enumeration of operation histories (and of other
// finite spaces) on the real code, in parallel worker processes.
#include "sys.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static const int MAXW = 64, MAXJ = 256, MAXV = 24, MAXS = 12;

struct Viol {
	int32_t job, kind;                // kind 0 property, 1 crash, 2 hang
	char msg[1024];
	char text[131072];
};

struct Shared {
	std::atomic<uint64_t> next;
	std::atomic<int32_t> stop;
	std::atomic<int32_t> jobstop[MAXJ];
	std::atomic<uint64_t> jobdone[MAXJ];
	std::atomic<int32_t> nviol[MAXJ];
	std::atomic<int32_t> nv;
	std::atomic<int32_t> ns;
	Viol v[MAXV];
	char sample[MAXS][1024];
	Stats st[MAXW];
	uint64_t jobtrans[MAXW][MAXJ], jobstates[MAXW][MAXJ];
	Slot slot[MAXW];
	std::atomic<uint64_t> table_used;
	std::atomic<uint64_t> log_used;
	std::atomic<int32_t> joblost[MAXJ];
	std::atomic<uint64_t> newstates[MAXJ];
	std::atomic<int32_t> tablefull;
};

static Shared *sh;
static std::atomic<uint64_t> *table;
static uint64_t table_mask;

// records: job, then the operations of a path (as many as the level)
static uint16_t *frontier, *newlog;
static uint64_t log_bytes;
static uint64_t stride = 1;           // of the frontier, in words; the log has one more
static const uint64_t CHUNK = 64;

struct Job {
	Config *cfg = nullptr;
	EnumJob *en = nullptr;
	std::vector<Op> ops;
	std::vector<Op> prefix;
	std::vector<std::vector<Op>> epi;
	int split = 0;                    // ops fixed by the task number
	uint64_t ntasks = 1, first = 0;
	// breadth first, equal states merged: paths to the states of the current level
	bool active = true, bfs = false, closed = false;
	int level = -1;                   // last completed level
	uint64_t budget = 0, epiops = 0, spent = 0, found = 0;
	uint64_t front = 0, nfront = 0;   // records of the frontier
};

static std::vector<Job> jobs;
static Plan plan;
static std::string check_id;
uint64_t vf_nontrivial;
static char *pristine;

static void fresh()
{
	arena::reset();
	arena::restore(pristine);
}

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string history(const Job &j, const Slot &s)
{
	std::string t = "config " + j.cfg->name + "\nsystem " + j.cfg->header + "\n";
	for (auto &o : j.prefix) t += "op " + o.text + "\n";
	for (int i = 0; i < s.len; ++i) t += "op " + j.ops[s.ops[i]].text + "\n";
	if (s.epi >= 0)
		for (int i = 0; i < s.epilen && i < (int)j.epi[s.epi].size(); ++i) t += "op " + j.epi[s.epi][i].text + "\n";
	if (s.epi == -2) t += "finish\n";
	return t;
}

static void add_viol(int job, int kind, const std::string &text, const std::string &msg)
{
	int lim = 3;
	if (sh->nviol[job]++ >= lim) {
		sh->jobstop[job] = 1;
		return;
	}
	int i = sh->nv++;
	if (i >= MAXV) {
		sh->stop = 1;
		return;
	}
	Viol &v = sh->v[i];
	v.job = job;
	v.kind = kind;
	snprintf(v.msg, sizeof(v.msg), "%s", msg.c_str());
	snprintf(v.text, sizeof(v.text), "%s", text.c_str());
}

static void add_sample(const std::string &t)
{
	int i = sh->ns++;
	if (i < MAXS) snprintf(sh->sample[i], sizeof(sh->sample[i]), "%s", t.c_str());
}

// ------------------------------------------------------------------ worker

struct Worker {
	int id;
	Slot *slot;
	Stats *st;
	System *sys = nullptr;
	Job *job = nullptr;
	int ji = -1;
	std::vector<std::vector<char>> snap;
	std::unique_ptr<System> holder;
	uint64_t leafs = 0;

	bool stopped() { return sh->stop || sh->jobstop[ji]; }

	bool step(const Op &op)
	{
		std::string err;
		++slot->beat;
		++st->transitions;
		++sh->jobtrans[id][ji];
		bool ok = sys->apply(op, err);
		st->nontrivial += vf_nontrivial;
		vf_nontrivial = 0;
		if (ok) return true;
		add_viol(ji, 0, history(*job, *slot), err);
		return false;
	}

	void save(int level)
	{
		if ((int)snap.size() <= level) snap.resize(level + 1);
		size_t n = sys->snap_size();
		if (snap[level].size() < n) snap[level].resize(n + n / 2);
		sys->save(snap[level].data());
	}

	void suffixes(int level, bool fin)
	{
		// the state to restore is saved at this level by the caller
		for (size_t e = 0; e < job->epi.size(); ++e) {
			slot->epi = (int)e;
			slot->epilen = 0;
			sys->restore(snap[level].data());
			for (auto &o : job->epi[e]) {
				++slot->epilen;
				if (!sys->enabled(o)) continue;
				if (!step(o)) break;
				if (stopped()) return;
			}
		}
		if (fin) {
			std::string err;
			slot->epi = -2;
			sys->restore(snap[level].data());
			++slot->beat;
			if (!sys->finish(err)) add_viol(ji, 0, history(*job, *slot), err);
		}
		slot->epi = -1;
	}

	// BFS: true if the current state is new
	bool unseen()
	{
		uint64_t h = sys->key() ^ (0x9e3779b97f4a7c15ull * (uint64_t)(ji + 1));
		h = (h ^ (h >> 32)) * 0xc4ceb9fe1a85ec53ull;
		h ^= h >> 29;
		if (!h) h = 1;
		uint64_t i = h >> 20;
		for (uint64_t n = 0; n < 100000; ++n, ++i) {
			std::atomic<uint64_t> &e = table[i & table_mask];
			uint64_t v = e.load(std::memory_order_relaxed);
			if (!v && e.compare_exchange_strong(v, h)) {
				if ((++sh->table_used & 1023) == 0 && sh->table_used > table_mask - table_mask / 8) {
					sh->jobstop[ji] = 2;
					sh->tablefull = 1;
				}
				return true;
			}
			if (v == h) return false;
		}
		sh->jobstop[ji] = 2;
		return false;
	}

	// FULL: how many different states the histories reach
	void count_state()
	{
		uint64_t h = sys->hash();
		if (h && sh->table_used < table_mask - table_mask / 4) {
			h ^= 0x9e3779b97f4a7c15ull * (uint64_t)(ji + 1);
			h = ((h ^ (h >> 32)) * 0xc4ceb9fe1a85ec53ull) | 63;
			uint64_t i = h >> 20;
			for (int n = 0; n < 64; ++n, ++i) {
				std::atomic<uint64_t> &e = table[i & table_mask];
				uint64_t v = e.load(std::memory_order_relaxed);
				if (v == h) return;
				if (!v && e.compare_exchange_strong(v, h)) {
					++sh->table_used;
					break;
				}
				if (v == h) return;
			}
		}
		++st->states;
		++sh->jobstates[id][ji];
	}

	void dfs(int level, int rem)
	{
		const Config &c = *job->cfg;
		for (size_t k = 0; k < job->ops.size(); ++k) {
			if (stopped()) return;
			if (!sys->enabled(job->ops[k])) continue;
			slot->ops[level] = (uint16_t)k;
			slot->len = level + 1;
			if (!step(job->ops[k])) {
				sys->restore(snap[level].data());
				continue;
			}
			if (!sys->dead()) node(level + 1, rem - 1, c);
			sys->restore(snap[level].data());
		}
		slot->len = level;
	}

	void node(int level, int rem, const Config &c)
	{
		bool leaf = rem == 0;
		count_state();
		bool epi = !job->epi.empty() && (c.epi_every || leaf);
		bool fin = (c.finish && leaf) || c.finish_every;
		if (leaf) {
			++st->traces;
			if (st->traces == 1 || (st->traces & (st->traces - 1)) == 0) {
				if (id == 0 && sh->ns < MAXS && (st->traces == 1 || st->traces > 4000)) add_sample(history(*job, *slot));
			}
		}
		if (leaf && !epi && !fin) return;
		save(level);
		if (epi || fin) {
			suffixes(level, fin);
			sys->restore(snap[level].data());
		}
		if (!leaf) dfs(level, rem);
	}

	void start(int j)
	{
		ji = j;
		job = &jobs[j];
		slot->job = j;
		slot->epi = -1;
		slot->len = 0;
		if (job->cfg) {
			Header h = parse_header(job->cfg->header);
			fresh();
			holder = make_system(h.sys);
			sys = holder.get();
			for (auto *l : { &job->ops, &job->prefix })
				for (auto &o : *l) sys->resolve(o);
			for (auto &e : job->epi)
				for (auto &o : e) sys->resolve(o);
		}
	}

	// brings the system to the state behind the prefix
	bool root()
	{
		fresh();
		slot->len = 0;
		slot->epi = -1;
		sys->init(parse_header(job->cfg->header));
		// the prefix is reported as one operation sequence
		std::string err;
		for (size_t i = 0; i < job->prefix.size(); ++i) {
			++slot->beat;
			if (!sys->apply(job->prefix[i], err)) {
				add_viol(ji, 0, history(*job, *slot), err);
				sh->jobstop[ji] = 1;
				return false;
			}
		}
		return true;
	}

	int rooted = -1;                  // the job whose root is in snap[0]
	std::vector<uint16_t> fresh_;

	void expand(uint64_t t)
	{
		const Config &c = *job->cfg;
		int d = (int)stride - 1;          // length of the paths
		if (rooted != ji) {
			if (!root()) return;
			save(0);
			rooted = ji;
			if (d == 0 && t == 0) {
				unseen();
				++st->states;
				++sh->jobstates[id][ji];
				if (!job->epi.empty() || c.finish || c.finish_every) suffixes(0, c.finish || c.finish_every);
			}
		}
		bool suf = !job->epi.empty() || c.finish || c.finish_every;
		const uint16_t *prev = nullptr;
		fresh_.clear();
		uint64_t lo = job->front + t * CHUNK, hi = std::min(lo + CHUNK, job->front + job->nfront), found = 0;
		for (uint64_t r = lo; r < hi && !stopped(); ++r) {
			const uint16_t *path = frontier + r * stride + 1;
			int same = 0;
			while (prev && same < d && prev[same] == path[same]) ++same;
			prev = path;
			slot->epi = -1;
			sys->restore(snap[same].data());
			for (int i = 0; i < d; ++i) slot->ops[i] = path[i];
			slot->len = d;
			for (int i = same; i < d; ++i) {
				std::string err;
				++slot->beat;
				if (!sys->apply(job->ops[path[i]], err)) {
					// the path was fine before
					add_viol(ji, 0, history(*job, *slot), "not deterministic: " + err);
					return;
				}
				vf_nontrivial = 0;
				save(i + 1);
			}
			bool dirty = false;
			for (size_t k = 0; k < job->ops.size(); ++k) {
				if (stopped()) return;
				if (dirty) sys->restore(snap[d].data());
				dirty = false;
				slot->len = d;
				if (!sys->enabled(job->ops[k])) continue;
				dirty = true;
				slot->ops[d] = (uint16_t)k;
				slot->len = d + 1;
				if (!step(job->ops[k])) continue;
				if (sys->dead() || !unseen()) continue;
				++st->states;
				++st->traces;
				++found;
				if (id == 0 && sh->ns < MAXS && (st->traces == 1 || (st->traces > 4000 && !(st->traces & (st->traces - 1))))) add_sample(history(*job, *slot));
				if (suf) {
					save(d + 1);
					suffixes(d + 1, c.finish || c.finish_every);
				}
				fresh_.push_back((uint16_t)ji);
				fresh_.insert(fresh_.end(), path, path + d);
				fresh_.push_back((uint16_t)k);
			}
		}
		sh->jobstates[id][ji] += found;
		sh->newstates[ji] += found;
		if (found) {
			uint64_t s2 = stride + 1, at = sh->log_used.fetch_add(found);
			if ((at + found) * s2 * 2 > log_bytes) {
				sh->joblost[ji] = 1;
				for (uint64_t i = at; (i + 1) * s2 * 2 <= log_bytes; ++i) newlog[i * s2] = 0xffff;
			} else memcpy(newlog + at * s2, fresh_.data(), fresh_.size() * 2);
		}
	}

	void run_task(int j, uint64_t t)
	{
		if (ji != j) start(j);
		if (sh->jobstop[j]) return;
		slot->task = (int64_t)t;
		slot->busy = 1;
		if (job->bfs) {
			expand(t);
		} else if (job->en) {
			EnumCtx cx;
			cx.slot = slot;
			cx.st = st;
			cx.fail = [&](const std::string &r, const std::string &m) { add_viol(ji, 0, r, m); };
			cx.stopped = [&]() { return stopped(); };
			uint64_t tr = st->transitions, ss = st->states;
			fresh();
			job->en->run(t, cx);
			sh->jobtrans[id][ji] += st->transitions - tr;
			sh->jobstates[id][ji] += st->states - ss;
		} else {
			const Config &c = *job->cfg;
			bool ok = root();
			std::string err;
			int level = 0, rem = c.depth;
			if (ok && t == 0 && c.depth >= 0) {
				save(0);
				suffixes(0, c.finish_every || c.depth == 0);
				sys->restore(snap[0].data());
			}
			uint64_t n = job->ops.size(), tt = t;
			std::vector<uint64_t> idx(job->split);
			for (int i = job->split - 1; i >= 0; --i) {
				idx[i] = tt % n;
				tt /= n;
			}
			bool pruned = false;
			for (int i = 0; ok && i < job->split; ++i) {
				if (!sys->enabled(job->ops[idx[i]])) { ok = false; break; }
				save(level);
				slot->ops[level] = (uint16_t)idx[i];
				slot->len = level + 1;
				bool rest0 = true;
				for (int k = i + 1; k < job->split; ++k) rest0 &= idx[k] == 0;
				// intermediate nodes belong to the task whose later indices are all 0
				if (rest0 || i + 1 == job->split) {
					ok = step(job->ops[idx[i]]);
				} else {
					++slot->beat;
					ok = sys->apply(job->ops[idx[i]], err);
					vf_nontrivial = 0;
				}
				if (sys->dead()) ok = false;
				++level;
				--rem;
				if (ok && i + 1 < job->split && rest0) {
					count_state();
					bool epi = !job->epi.empty() && c.epi_every, fin = c.finish_every;
					if (epi || fin) {
						save(level);
						suffixes(level, fin);
						sys->restore(snap[level].data());
					}
				}
			}
			if (ok && !pruned && job->split) node(level, rem, c);
			else if (ok && !pruned && c.depth > 0) { save(level); dfs(level, rem); }
		}
		if (!sh->stop && !sh->jobstop[j]) ++sh->jobdone[j];
		slot->busy = 0;
	}

	void loop()
	{
		for (;;) {
			if (sh->stop) break;
			uint64_t t = sh->next++;
			int j = -1;
			for (size_t k = 0; k < jobs.size(); ++k)
				if (jobs[k].active && t >= jobs[k].first && t < jobs[k].first + jobs[k].ntasks) j = (int)k;
			if (j < 0) break;
			run_task(j, t - jobs[j].first);
		}
	}
};

// ------------------------------------------------------------------ output

static std::string json(const std::string &s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static void build_jobs()
{
	for (auto &c : plan.configs) {
		Job j;
		j.cfg = &c;
		// a depth chosen by hand means all histories of that length
		c.mode = c.depth == c.fitted && c.budget > 0 && !c.full ? DEDUP : FULL;
		for (auto &l : c.alphabet) j.ops.push_back(parse_op(l));
		for (auto &l : c.prefix) j.prefix.push_back(parse_op(l));
		for (auto &e : c.epi) {
			j.epi.emplace_back();
			for (auto &l : e) j.epi.back().push_back(parse_op(l));
		}
		for (auto &e : j.epi) j.epiops += e.size();
		if (c.finish || c.finish_every) j.epiops += 4;
		j.bfs = c.mode == DEDUP;
		j.budget = (uint64_t)c.budget;
		j.nfront = 1;                     // the empty path
		jobs.push_back(std::move(j));
	}
	for (auto &e : plan.enums) {
		Job j;
		j.en = &e;
		j.ntasks = e.ntasks;
		jobs.push_back(std::move(j));
	}
	if (jobs.size() > (size_t)MAXJ) { fprintf(stderr, "too many jobs\n"); exit(3); }
}

// lays out the tasks of the active jobs
static void layout()
{
	uint64_t f = 0;
	for (auto &j : jobs) {
		if (!j.active) continue;
		if (j.bfs) {
			j.ntasks = (j.nfront + CHUNK - 1) / CHUNK;
		} else if (j.cfg) {
			Config &c = *j.cfg;
			j.split = std::min(c.depth, j.ops.size() > 300 || c.depth < 3 ? 1 : 2);
			if (j.split < 0) j.split = 0;
			j.ntasks = 1;
			for (int i = 0; i < j.split; ++i) j.ntasks *= j.ops.size();
		}
		j.first = f;
		f += j.ntasks;
	}
}

// after a level: which jobs go on? Their new paths become the frontier.
static bool next_level(int workers)
{
	uint64_t s2 = stride + 1, n = sh->log_used, lim = log_bytes / (s2 * 2);
	uint64_t room = log_bytes / (s2 * 2);
	bool more = false;
	n = std::min(n, lim);
	uint64_t at = 0;
	std::vector<uint64_t> pos(jobs.size());
	for (size_t k = 0; k < jobs.size(); ++k) {
		Job &j = jobs[k];
		bool was = j.active;
		j.active = false;
		if (!was || !j.bfs || sh->jobstop[k] || sh->jobdone[k] < j.ntasks) continue;
		uint64_t fr = sh->newstates[k], tr = 0;
		for (int i = 0; i < workers; ++i) tr += sh->jobtrans[i][k];
		double growth = j.nfront ? (double)fr / (double)j.nfront : 0;
		++j.level;
		j.found += fr;
		j.spent = tr;
		if (!fr) { j.closed = true; continue; }
		double cost = (double)fr * ((double)j.ops.size() + 1 + growth * (double)j.epiops);
		if (j.level + 2 > 60 || (double)tr + cost > (double)j.budget * 1.25 || sh->joblost[k] || at + fr > room) continue;
		j.active = true;
		j.front = pos[k] = at;
		j.nfront = fr;
		at += fr;
		more = true;
	}
	if (!more) return false;
	for (uint64_t i = 0; i < n; ++i) {
		const uint16_t *r = newlog + i * s2;
		if (*r < jobs.size() && jobs[*r].active) memcpy(frontier + pos[*r]++ * s2, r, s2 * 2);
	}
	stride = s2;
	sh->log_used = 0;
	sh->next = 0;
	for (size_t k = 0; k < jobs.size(); ++k) sh->newstates[k] = 0, sh->jobdone[k] = jobs[k].active ? 0 : sh->jobdone[k].load();
	return true;
}

// processor time of a worker: a busy machine is no hang
static double cpu(pid_t p)
{
	clockid_t c;
	struct timespec t;
	if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0;
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static pid_t spawn(int w)
{
	fflush(stdout);
	fflush(stderr);
	pid_t p = fork();
	if (p) return p;
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	int fd = open(("/dev/null"), O_WRONLY);
	if (fd >= 0 && !getenv("VF_STDERR")) dup2(fd, 2);
	signal(SIGTERM, SIG_DFL);
	Worker wk;
	wk.id = w;
	wk.slot = &sh->slot[w];
	wk.st = &sh->st[w];
	wk.loop();
	_exit(0);
}

static int cmd_run(const std::string &id, bool thorough, double limit, int workers, const std::string &outfile)
{
	check_id = id;
	plan = make_plan(id, thorough);
	build_jobs();
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	uint64_t bits = plan.configs.empty() ? 4 : thorough ? 30 : 26;
	table_mask = (1ull << bits) - 1;
	table = (std::atomic<uint64_t> *)mmap(nullptr, 8ull << bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	log_bytes = thorough ? 6ull << 30 : 2ull << 30;
	frontier = (uint16_t *)mmap(nullptr, log_bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	newlog = (uint16_t *)mmap(nullptr, log_bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	double t0 = now();
	int crashes = 0, hangs = 0;
	bool deadline = false;
	for (int round = 0;; ++round) {
	layout();
	std::vector<pid_t> pid(workers);
	std::vector<uint64_t> beat(workers);
	std::vector<double> seen(workers), seencpu(workers);
	for (int i = 0; i < workers; ++i) {
		sh->slot[i].epi = -1;
		pid[i] = spawn(i);
		seen[i] = now();
		seencpu[i] = -1;
	}
	int alive = workers;
	while (alive) {
		usleep(5000);
		double t = now();
		if (!deadline && t - t0 > limit) {
			deadline = true;
			sh->stop = 1;
		}
		for (int i = 0; i < workers; ++i) {
			if (pid[i] <= 0) continue;
			int st;
			Slot &s = sh->slot[i];
			bool hang = false;
			pid_t r = waitpid(pid[i], &st, WNOHANG);
			if (r == 0) {
				if (s.beat != beat[i]) {
					beat[i] = s.beat;
					seen[i] = t;
					seencpu[i] = -1;
				} else if (s.busy && t - seen[i] > (deadline ? 3 : 12) && seencpu[i] < 0) {
					seencpu[i] = cpu(pid[i]);
				} else if (s.busy && seencpu[i] >= 0 && (cpu(pid[i]) - seencpu[i] > (deadline ? 1 : 4) || t - seen[i] > 150)) {
					kill(pid[i], SIGKILL);
					waitpid(pid[i], &st, 0);
					hang = true;
					if (deadline) { pid[i] = -1; --alive; continue; }
				} else {
					continue;
				}
				if (!hang) continue;
			} else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				pid[i] = -1;
				--alive;
				continue;
			}
			// died or hung in the middle of a case
			++crashes;
			if (hang && ++hangs >= 6) {
				// each takes long to find: these suffice
				deadline = true;
				sh->stop = 1;
			}
			int j = s.job;
			if (s.busy && j >= 0 && j < (int)jobs.size()) {
				std::string text = jobs[j].cfg ? history(jobs[j], s) : jobs[j].en->describe(s.cur);
				char m[128];
				if (hang) snprintf(m, sizeof(m), "does not terminate");
				else if (WIFSIGNALED(st)) snprintf(m, sizeof(m), "crash (signal %d)", WTERMSIG(st));
				else snprintf(m, sizeof(m), "abort (exit status %d)", WEXITSTATUS(st));
				add_viol(j, hang ? 2 : 1, text, m);
				sh->jobstop[j] = 1;
			}
			s.busy = 0;
			if (crashes > 40 || sh->stop) {
				pid[i] = -1;
				--alive;
				continue;
			}
			seen[i] = t;
			seencpu[i] = -1;
			pid[i] = spawn(i);
		}
	}
	if (sh->stop || deadline || !next_level(workers)) break;
	}
	Stats st = {};
	for (int i = 0; i < workers; ++i) {
		st.states += sh->st[i].states;
		st.transitions += sh->st[i].transitions;
		st.traces += sh->st[i].traces;
		st.nontrivial += sh->st[i].nontrivial;
	}
	FILE *f = fopen(outfile.c_str(), "w");
	if (!f) { perror(outfile.c_str()); return 3; }
	bool complete = true;
	for (size_t j = 0; j < jobs.size(); ++j) complete &= jobs[j].bfs ? jobs[j].level >= 0 && sh->jobstop[j] != 1 : sh->jobdone[j] >= jobs[j].ntasks;
	fprintf(f, "{\"level\": %s, \"rule\": %s, \"states\": %lu, \"transitions\": %lu, \"traces\": %lu, \"nontrivial\": %lu, \"wall\": %.3f, \"complete\": %s, \"deadline\": %s,\n",
		json(plan.level).c_str(), json(plan.rule).c_str(), st.states, st.transitions, st.traces, st.nontrivial, now() - t0,
		complete ? "true" : "false", deadline ? "true" : "false");
	fprintf(f, "\"assumptions\": [");
	for (size_t i = 0; i < plan.assumptions.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json(plan.assumptions[i]).c_str());
	fprintf(f, "],\n\"jobs\": [\n");
	for (size_t j = 0; j < jobs.size(); ++j) {
		uint64_t tr = 0, ss = 0;
		for (int i = 0; i < workers; ++i) {
			tr += sh->jobtrans[i][j];
			ss += sh->jobstates[i][j];
		}
		Config *c = jobs[j].cfg;
		bool fin = jobs[j].bfs && jobs[j].level >= 0;
		fprintf(f, "%s{\"name\": %s, \"tasks\": %lu, \"done\": %lu, \"states\": %lu, \"transitions\": %lu", j ? ",\n" : "",
			json(c ? c->name : jobs[j].en->name).c_str(), jobs[j].ntasks, fin ? jobs[j].ntasks : sh->jobdone[j].load(), ss, tr);
		if (c)
			fprintf(f, ", \"alphabet\": %zu, \"depth\": %d, \"mode\": \"%s\", \"system\": %s", c->alphabet.size(), fin ? jobs[j].level + 1 : c->depth,
				c->mode == FULL ? "all histories" : jobs[j].closed ? "all reachable states" : "all states", json(c->header).c_str());
		else
			fprintf(f, ", \"bound\": %s", json(jobs[j].en->bound).c_str());
		fprintf(f, "}");
	}
	fprintf(f, "],\n\"samples\": [");
	int ns = std::min<int>(sh->ns, MAXS);
	for (int i = 0; i < ns; ++i) fprintf(f, "%s%s", i ? ", " : "", json(sh->sample[i]).c_str());
	fprintf(f, "],\n\"violations\": [");
	int nv = std::min<int>(sh->nv, MAXV);
	for (int i = 0; i < nv; ++i)
		fprintf(f, "%s{\"kind\": %d, \"msg\": %s, \"text\": %s}", i ? ", " : "", sh->v[i].kind, json(sh->v[i].msg).c_str(), json(sh->v[i].text).c_str());
	fprintf(f, "]}\n");
	fclose(f);
	return 0;
}

// ------------------------------------------------------------------ replay

static int cmd_replay(const char *file, bool verbose)
{
	FILE *f = fopen(file, "r");
	if (!f) { perror(file); return 3; }
	char *line = nullptr;
	size_t cap = 0;
	ssize_t n;
	std::string header;
	std::vector<Op> ops;
	bool fin = false;
	while ((n = getline(&line, &cap, f)) >= 0) {
		while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
		if (!strncmp(line, "system ", 7)) header = line + 7;
		else if (!strncmp(line, "op ", 3)) ops.push_back(parse_op(line + 3));
		else if (!strcmp(line, "finish")) fin = true;
	}
	fclose(f);
	Header h = parse_header(header);
	std::unique_ptr<System> s = make_system(h.sys);
	if (!s) { fprintf(stderr, "unknown system %s\n", h.sys.c_str()); return 3; }
	fresh();
	for (auto &o : ops) s->resolve(o);
	s->init(h);
	std::string err;
	for (size_t i = 0; i < ops.size(); ++i) {
		if (verbose) { printf("op %s\n", ops[i].text.c_str()); fflush(stdout); }
		if (!s->enabled(ops[i])) continue;
		if (!s->apply(ops[i], err)) {
			printf("REPLAY-VIOLATION after operation %zu (%s): %s\n", i + 1, ops[i].text.c_str(), err.c_str());
			return 1;
		}
	}
	if (fin && !s->finish(err)) {
		printf("REPLAY-VIOLATION at the end: %s\n", err.c_str());
		return 1;
	}
	printf("REPLAY-OK\n");
	return 0;
}

int main(int argc, char **argv)
{
	arena::init();
	pristine = (char *)malloc(arena::snap_size());
	arena::save(pristine);
	std::string cmd = argc > 1 ? argv[1] : "";
	if (cmd == "run" && argc == 7) return cmd_run(argv[2], !strcmp(argv[3], "thorough"), atof(argv[4]), atoi(argv[5]), argv[6]);
	if (cmd == "replay" && argc >= 3) return cmd_replay(argv[2], argc > 3);
	fprintf(stderr, "usage: %s run ID TIER SECONDS WORKERS OUT.json | replay FILE [-v]\n", argv[0]);
	return 3;
}
