#include "codec.h"
#include "case.h"
#include "effects.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstring>

static std::string jesc(const std::string &s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

struct Job { std::string id; std::function<void(Engine &)> go; };
static std::string specDir;
static LLVMContext Ctx;
static std::unique_ptr<Module> Mod;
static int dbg = 0;

static Scenario sc(const std::string &fn, int inKind, int outKind, const std::string &desc) {
	Scenario s; s.fn = fn; s.inKind = inKind; s.outKind = outKind; s.desc = desc; return s;
}
static void textScenarios(Engine &E, const std::string &fn, bool utf8, int outKind = -1) {
	int k = utf8 ? T_UNITS : T_CP;
	Scenario a = sc(fn, k, outKind, "length given");
	E.scens.push_back(a);
	a.nul = true; a.desc = "NUL-terminated";
	E.scens.push_back(a);
	if (utf8) {
		a.trunc = true; a.nul = false; a.desc = "length given, ends in a truncated sequence";
		E.scens.push_back(a);
		a.trunc = false;
	}
	a.nul = false; a.srcNull = true; a.desc = "NULL input";
	E.scens.push_back(a);
}

static void emit(Engine &E, const std::string &job, const std::string &err) {
	printf("{\"job\":\"%s\",\"error\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"paths\":%ld,\"restarts\":%ld,\"splits\":%ld,\"instructions\":%ld,"
	       "\"decisions\":%ld,\"obligations\":%ld,\"blocks\":%d,\"seconds\":%.2f,",
	       job.c_str(), jesc(err).c_str(), E.nStates, E.nTrans, E.nPaths, E.nRestarts, E.nSplits, (long)E.visitedInstr.size(), E.nDecide, E.nObl, E.U.nblk, nowSec() - E.t0);
	printf("\"functions\":[");
	std::set<std::string> fs;
	for (auto f : E.visitedFns) fs.insert(f->getName().str());
	for (auto &s : E.scens) fs.insert(s.fn);
	bool c = false;
	for (auto &f : fs) { printf("%s\"%s\"", c ? "," : "", f.c_str()); c = true; }
	printf("],\"scenarios\":[");
	c = false;
	for (auto &s : E.scens) { printf("%s\"%s: %s\"", c ? "," : "", s.fn.c_str(), jesc(s.desc).c_str()); c = true; }
	printf("],\"violations\":[");
	c = false;
	for (auto &v : E.viol) {
		printf("%s\n{\"kind\":\"%s\",\"fn\":\"%s\",\"where\":\"%s\",\"msg\":\"%s\",\"sig\":\"%s\",\"trace\":\"%s\"}", c ? "," : "", v.kind.c_str(), jesc(v.fn).c_str(),
		       jesc(v.where).c_str(), jesc(v.msg).c_str(), jesc(v.sig).c_str(), jesc(v.trace).c_str());
		c = true;
	}
	printf("],\"cut\":%s}\n", E.cut ? "true" : "false");
	fflush(stdout);
}

static void initUniverse(Engine &E, ClassTab *T) {
	/* NUL and the surrogates never occur in some scenarios: keep them apart */
	E.U.initCps([&](u32 c) -> u64 { return (T ? T->of[c] : 0) * 4 + (c == 0 ? 1 : c >= 0xD800 && c < 0xE000 ? 2 : 0); });
}

/* A first pass with a monitor that only checks offsets finds every memory slot
 * and cursor that is live at a loop head. */
static void discover(Engine &E, Monitor *own, double soft = 30) {
	static SafetyMonitor sm;
	sm.E = &E;
	E.mon = own ? own : &sm;
	initUniverse(E, nullptr);
	if (!own) E.softEnd = nowSec() + soft;
	E.run();
	E.softEnd = 0;
}

static void config(Engine &E) {
	const char *m = getenv("GSA_MODE"), *l = getenv("GSA_LIMIT");
	E.debug = dbg;
	E.decidePast = !m || strcmp(m, "fn");
	if (getenv("GSA_ORDER")) E.order = atoi(getenv("GSA_ORDER"));
	if (getenv("GSA_GRACE")) E.grace = atof(getenv("GSA_GRACE"));
	if (l) E.tLimit = atoi(l);
}

static int runBreak(const std::string &job, const std::string &fn, const std::string &kind, bool safety) {
	Engine E;
	config(E);
	std::unique_ptr<BreakMonitor> mon;
	std::string err;
	try {
		E.prepare(Mod.get());
		std::string file, d, inv;
		if (kind == "gcb") { mon = std::make_unique<GBMon>(); d = inv = "Other"; }
		else if (kind == "wb") { mon = std::make_unique<WBMon>(); d = inv = "Other"; }
		else if (kind == "sb") { mon = std::make_unique<SBMon>(); d = inv = "Other"; }
		else { mon = std::make_unique<LBMon>(); d = inv = "AL"; }
		if (!mon->T.load(specDir + "/" + kind)) throw Imprecise{ "reference data missing" };
		mon->dflt = mon->T[d];
		mon->inval = mon->T.of[0xFFFD];
		mon->safety = safety;
		mon->E = &E;
		E.mon = mon.get();
		bool u8 = fn.size() > 5 && fn.substr(fn.size() - 5) == "_utf8";
		if (u8) E.contracts = { "grapheme_decode_utf8" };
		textScenarios(E, fn, u8);
		discover(E, safety ? mon.get() : nullptr);
		if (!safety) {
			E.mon = mon.get();
			initUniverse(E, &mon->T);
			E.run();
		}
	} catch (Imprecise &e) { err = e.why; }
	emit(E, job, err);
	return 0;
}

static int runCodec(const std::string &job, bool decode) {
	Engine E;
	config(E);
	std::string err;
	DecodeMon dm;
	EncodeMon em;
	try {
		E.prepare(Mod.get());
		Monitor *m = decode ? (Monitor *)&dm : &em;
		m->E = &E;
		E.mon = m;
		if (decode) {
			for (int q = 0; q < 2; q++) {
				Scenario a = sc("grapheme_decode_utf8", T_BYTES, -1, q ? "length given, no result pointer" : "length given");
				a.poNull = q;
				E.scens.push_back(a);
				a.nul = true; a.desc = q ? "NUL-terminated, no result pointer" : "NUL-terminated";
				E.scens.push_back(a);
				a.nul = false; a.srcNull = true; a.desc = q ? "NULL input, no result pointer" : "NULL input";
				E.scens.push_back(a);
			}
			E.U.initBytes();
		} else {
			Scenario a = sc("grapheme_encode_utf8", -1, T_OUT8, "buffer given");
			a.track = true;
			E.scens.push_back(a);
			a.destNull = true; a.desc = "no buffer";
			E.scens.push_back(a);
			initUniverse(E, nullptr);
		}
		E.run();
	} catch (Imprecise &e) { err = e.why; }
	emit(E, job, err);
	return 0;
}

/* "part:i/n": this process takes every n-th pair of scenarios (with and without output) */
static void takePart(Engine &E, int argc, char **argv) {
	int i, n;
	if (argc < 6 || sscanf(argv[5], "part:%d/%d", &i, &n) != 2) return;
	std::vector<Scenario> mine;
	for (size_t k = 0; k < E.scens.size(); k++) if ((int)(k / 2) % n == i) mine.push_back(E.scens[k]);
	E.scens = mine;
}

static int runCase(const std::string &job, const std::string &fn, int argc, char **argv) {
	Engine E;
	config(E);
	std::string err;
	CaseData cd;
	CaseMon conv;
	IsCaseMon test;
	bool isTest = job == "iscase";
	CaseBase &cm = isTest ? (CaseBase &)test : conv;
	try {
		E.prepare(Mod.get());
		if (!cd.load(specDir)) throw Imprecise{ "reference data missing" };
		bool u8 = fn.size() > 5 && fn.substr(fn.size() - 5) == "_utf8";
		if (u8) E.contracts = { "grapheme_decode_utf8" };
		cm.E = &E;
		cm.C = &cd;
		cm.kind = fn.find("upper") != std::string::npos ? 0 : fn.find("lower") != std::string::npos ? 1 : 2;
		if (cm.kind == 2) { E.contracts.insert("grapheme_next_word_break"); E.contracts.insert("grapheme_next_word_break_utf8"); }
		cm.addSpec();
		E.mon = &cm;
		textScenarios(E, fn, u8, isTest ? -1 : u8 ? T_OUT8 : T_OUT32);
		std::vector<Scenario> all;
		for (auto a : E.scens) {
			if (isTest) {
				all.push_back(a);
				a.poNull = true;
				a.desc += ", no result pointer";
				all.push_back(a);
				continue;
			}
			a.track = true;
			a.desc += ", output given";
			all.push_back(a);
			a.track = false;
			a.destNull = true;
			a.desc = a.desc.substr(0, a.desc.size() - 14) + ", no output";
			all.push_back(a);
		}
		E.scens = all;
		takePart(E, argc, argv);
		discover(E, nullptr, 3);
		E.mon = &cm;
		E.U.initCps([&](u32 c) -> u64 { return cd.key(c) * 4 + (c == 0 ? 1 : c >= 0xD800 && c < 0xE000 ? 2 : 0); });
		E.run();
	} catch (Imprecise &e) { err = e.why; }
	emit(E, job, err);
	return 0;
}

static int runEffects(const std::string &job) {
	Effects X;
	double t0 = nowSec();
	X.M = Mod.get();
	X.DL = &Mod->getDataLayout();
	X.solve();
	X.check();
	int pub = 0, cst = 0;
	for (auto &F : *Mod) pub += Effects::isPublic(&F);
	for (auto &o : X.obs) cst += o.isConst;
	printf("{\"job\":\"%s\",\"error\":\"\",\"sites\":%ld,\"obligations\":%ld,\"seconds\":%.2f,\"functions\":[", job.c_str(), X.nSites, X.nObl, nowSec() - t0);
	bool c = false;
	for (auto &F : *Mod) if (!F.isDeclaration()) { printf("%s\"%s\"", c ? "," : "", F.getName().str().c_str()); c = true; }
	printf("],\"detail\":\"%d public functions, %d const pointer arguments, %zu objects, %zu pointer values\",\"violations\":[", pub, cst, X.obs.size(), X.pts.size());
	c = false;
	for (auto &v : X.viol) {
		printf("%s\n{\"kind\":\"%s\",\"fn\":\"%s\",\"where\":\"%s\",\"msg\":\"%s\",\"sig\":\"%s\",\"trace\":\"\"}", c ? "," : "", v.kind.c_str(), jesc(v.fn).c_str(),
		       jesc(v.where).c_str(), jesc(v.msg).c_str(), jesc(v.sig).c_str());
		c = true;
	}
	printf("]}\n");
	return 0;
}

int main(int argc, char **argv) {
	if (argc < 4) { fprintf(stderr, "usage: gsa IR SPEC JOB [ARGS]\n"); return 2; }
	if (getenv("GSA_DEBUG")) dbg = atoi(getenv("GSA_DEBUG"));
	specDir = argv[2];
	SMDiagnostic D;
	Mod = parseIRFile(argv[1], D, Ctx);
	if (!Mod) { D.print("gsa", errs()); return 2; }
	std::string job = argv[3];
	if (job == "break") return runBreak(job, argv[4], argv[5], argc > 6 && !strcmp(argv[6], "safety"));
	if (job == "decode" || job == "encode") return runCodec(job, job == "decode");
	if (job == "effects") return runEffects(job);
	if (job == "case" || job == "iscase") return runCase(job, argv[4], argc, argv);
	fprintf(stderr, "unknown job\n");
	return 2;
}
