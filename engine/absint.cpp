// Abstract interpreter over LLVM IR for the abc harnesses.
//
//   absint MODULE.bc OUT.json [--src PREFIX] [--models FILE] [--entry NAME]
//
// Every function named H_* is an entry.  All defined code is inlined into the
// entries (recursive calls stay calls), locals are promoted to SSA form, and
// each entry is analysed by a forward fixpoint computation with join and
// widening in the domain
//     partition key -> (values as linear forms over symbols, memory cells, zone)
// Nothing is executed and no path condition is handed to a solver: conditions
// refine the zone, states are joined at merge points (kept apart only by the
// values of ghost variables, boolean phis and rooted pointer phis).
#include "dom.h"

#include <llvm/Analysis/CFG.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <llvm/Transforms/Utils/CallPromotionUtils.h>
#include <llvm/Transforms/Utils/Cloning.h>

using namespace llvm;
Syms syms;

static bool optWide = false; static int optDelay = 4; static bool optSums = false, optConsts = false; static long optCount = -1, optCap = 160, optIter = 60000; // variants of the iteration, all of them sound
static bool wantFormat = false; // texts and formats are looked at
static std::string srcPrefix = "/repo/src/";
static bool debugOn = getenv("ABSINT_DEBUG") != nullptr;
static const char* debugEntry = getenv("ABSINT_DEBUG");

// ---------------------------------------------------------------- values
// a fixed order of the values of an entry (never by address: results must not depend on the run)
static DenseMap<const Value*, int> gOrd;
struct VLess { bool operator()(const Value* a, const Value* b) const { if (a == b) return false; auto x = gOrd.find(a), y = gOrd.find(b); int i = x == gOrd.end() ? -1 : x->second, j = y == gOrd.end() ? -1 : y->second; return i != j ? i < j : a < b; } };
struct Pred;
typedef std::shared_ptr<const Pred> PredP;
struct Pred {
	enum Op { CMP, AND, OR, NOT } op;
	CmpInst::Predicate cmp = CmpInst::ICMP_EQ;
	unsigned w = 64;
	Lin a, b;
	PredP x, y;
};
static bool predEq(const PredP& p, const PredP& q) {
	if (p == q) return true;
	if (!p || !q || p->op != q->op) return false;
	if (p->op == Pred::CMP) return p->cmp == q->cmp && p->w == q->w && p->a == q->a && p->b == q->b;
	return predEq(p->x, q->x) && predEq(p->y, q->y);
}
static PredP mkCmp(CmpInst::Predicate c, unsigned w, const Lin& a, const Lin& b) {
	auto p = std::make_shared<Pred>(); p->op = Pred::CMP; p->cmp = c; p->w = w; p->a = a; p->b = b; return p;
}
static PredP mkNot(PredP q) { if (q->op == Pred::NOT) return q->x; auto p = std::make_shared<Pred>(); p->op = Pred::NOT; p->x = q; return p; }
static PredP mkBin(Pred::Op o, PredP x, PredP y) { auto p = std::make_shared<Pred>(); p->op = o; p->x = x; p->y = y; return p; }

struct Val {
	enum K { NONE, INT, PTR, BOOL, AGG } k = NONE;
	Lin lin;       // INT: value modulo 2^w; PTR: byte offset
	int base = 0;  // PTR: region (0: absolute address)
	bool hasSub = false;
	Lin subLo, subSz;
	PredP p;
	std::vector<Val> agg;
	static Val mkInt(const Lin& l) { Val v; v.k = INT; v.lin = l; return v; }
	static Val mkPtr(int base, const Lin& off) { Val v; v.k = PTR; v.base = base; v.lin = off; return v; }
	static Val mkBool(PredP p) { Val v; v.k = BOOL; v.p = p; return v; }
	bool operator==(const Val& o) const {
		if (k != o.k) return false;
		switch (k) {
		case NONE: return true;
		case INT: return lin == o.lin;
		case PTR: return base == o.base && lin == o.lin && hasSub == o.hasSub && (!hasSub || (subLo == o.subLo && subSz == o.subSz));
		case BOOL: return predEq(p, o.p);
		case AGG: return agg == o.agg;
		}
		return false;
	}
	bool isConstInt() const { return k == INT && lin.isConst(); }
	bool isNull() const { return k == PTR && base == 0 && lin.isConst() && lin.c == 0; }
	Lin addr() const { return linAdd(Lin::sym(base), lin); }
};
static void linSyms(const Lin& l, std::set<int>& s) { for (auto& x : l.t) s.insert(x.first); }
static void predSyms(const PredP& p, std::set<int>& s) {
	if (!p) return;
	linSyms(p->a, s); linSyms(p->b, s); predSyms(p->x, s); predSyms(p->y, s);
}
static void valSyms(const Val& v, std::set<int>& s) {
	linSyms(v.lin, s); if (v.k == Val::PTR && v.base) s.insert(v.base);
	if (v.hasSub) { linSyms(v.subLo, s); linSyms(v.subSz, s); }
	predSyms(v.p, s);
	for (auto& x : v.agg) valSyms(x, s);
}
static Lin linRen(const Lin& l, int a, int b) {
	bool has = false;
	for (auto& x : l.t) if (x.first == a) has = true;
	if (!has) return l;
	Lin r; r.c = l.c;
	I k = 0;
	for (auto& x : l.t) if (x.first == a) k = x.second; else r.t.push_back(x);
	Lin e; e.t.push_back({b, k});
	return linAdd(r, e);
}
static PredP predRen(const PredP& p, int a, int b) {
	if (!p) return p;
	auto q = std::make_shared<Pred>(*p);
	q->a = linRen(p->a, a, b); q->b = linRen(p->b, a, b); q->x = predRen(p->x, a, b); q->y = predRen(p->y, a, b);
	return q;
}
static void valRen(Val& v, int a, int b) {
	v.lin = linRen(v.lin, a, b);
	if (v.k == Val::PTR && v.base == a) v.base = b;
	if (v.hasSub) { v.subLo = linRen(v.subLo, a, b); v.subSz = linRen(v.subSz, a, b); }
	if (v.p) v.p = predRen(v.p, a, b);
	for (auto& x : v.agg) valRen(x, a, b);
}

struct Cell { Val v; unsigned sz; bool operator==(const Cell& o) const { return sz == o.sz && v == o.v; } };
typedef std::pair<int, int64_t> CellKey;
struct Range { int r; int64_t lo, hi; bool operator<(const Range& o) const { return std::tie(r, lo, hi) < std::tie(o.r, o.lo, o.hi); } bool operator==(const Range& o) const { return r == o.r && lo == o.lo && hi == o.hi; } };

struct SymCell { int base; Lin off; unsigned sz; Val v; bool operator==(const SymCell& o) const { return base == o.base && off == o.off && sz == o.sz && v == o.v; } };
struct State {
	std::vector<SymCell> sym; // contents of memory at variable offsets
	std::map<const Value*, Val, VLess> vals;
	std::map<CellKey, Cell> cells;
	std::set<Range> zero;
	Dbm d;
	const Value* exc = nullptr;
	std::map<int, Lin> rsize;
	std::vector<std::pair<Val, Lin>> slen; // known string lengths: (pointer, length)
	std::map<int, int64_t> term; // a zero byte exists at this offset or after it
	std::map<int, int64_t> termEnd; // and before this one

	bool dead() const { return d.bottom; }
	void refs(std::set<int>& s) const {
		for (auto& x : vals) valSyms(x.second, s);
		for (auto& x : cells) { s.insert(x.first.first); valSyms(x.second.v, s); }
		for (auto& x : zero) s.insert(x.r);
		for (auto& x : term) s.insert(x.first);
		for (auto& x : sym) { s.insert(x.base); linSyms(x.off, s); valSyms(x.v, s); }
		for (auto& x : slen) { linSyms(x.second, s); valSyms(x.first, s); }
		int kept = 0;
		for (size_t i = d.eqs.size(); i-- > 0 && kept < 10;) { // a named sum or difference stays as long as its operands do
			bool all = true;
			for (auto& t : d.eqs[i].second.t) if (!s.count(t.first)) all = false;
			if (all && s.insert(d.eqs[i].first).second) kept++;
		}
		std::vector<int> q(s.begin(), s.end());
		while (!q.empty()) {
			int r = q.back(); q.pop_back();
			for (auto& e : d.eqs) if (e.first == r) for (auto& t : e.second.t) if (s.insert(t.first).second) q.push_back(t.first);
			auto it = rsize.find(r);
			if (it == rsize.end()) continue;
			for (auto& t : it->second.t) if (s.insert(t.first).second) q.push_back(t.first);
		}
	}
	void gc() {
		std::set<int> s; refs(s);
		d.project(s);
		for (auto it = rsize.begin(); it != rsize.end();) if (!s.count(it->first) && !(keepSize().count(it->first) && it->second.isConst())) it = rsize.erase(it); else ++it;
	}
	static std::set<int>& keepSize() { static std::set<int> k; return k; } // regions the harness gave a size
	void forgetSym(int a) { // remove every reference to a
		auto uses = [&](const Val& v) { std::set<int> s; valSyms(v, s); return s.count(a) > 0; };
		for (auto it = vals.begin(); it != vals.end();) if (uses(it->second)) it = vals.erase(it); else ++it;
		for (auto it = cells.begin(); it != cells.end();) if (it->first.first == a || uses(it->second.v)) it = cells.erase(it); else ++it;
		for (auto it = zero.begin(); it != zero.end();) if (it->r == a) it = zero.erase(it); else ++it;
		term.erase(a); termEnd.erase(a);
		for (size_t i = 0; i < sym.size();) { std::set<int> s; linSyms(sym[i].off, s); if (sym[i].base == a || s.count(a) || uses(sym[i].v)) sym.erase(sym.begin() + i); else i++; }
		for (auto it = rsize.begin(); it != rsize.end();) { std::set<int> s; linSyms(it->second, s); if (it->first == a || s.count(a)) it = rsize.erase(it); else ++it; }
		for (size_t i = 0; i < slen.size();) { std::set<int> s; linSyms(slen[i].second, s); if (uses(slen[i].first) || s.count(a)) slen.erase(slen.begin() + i); else i++; }
		d.drop(a);
	}
	bool mentions(int a) const {
		if (d.find(a) >= 0) return true;
		for (auto& e : d.eqs) { if (e.first == a) return true; for (auto& t : e.second.t) if (t.first == a) return true; }
		std::set<int> s; refs(s);
		return s.count(a) > 0;
	}
	void renameSym(int a, int b) {
		if (mentions(b)) forgetSym(b);
		for (auto& x : vals) valRen(x.second, a, b);
		std::map<CellKey, Cell> nc;
		for (auto& x : cells) { CellKey k = x.first; if (k.first == a) k.first = b; Cell c = x.second; valRen(c.v, a, b); nc[k] = c; }
		cells.swap(nc);
		for (auto& x : sym) { if (x.base == a) x.base = b; x.off = linRen(x.off, a, b); valRen(x.v, a, b); }
		std::map<int, int64_t> nt; for (auto& x : term) nt[x.first == a ? b : x.first] = x.second; term.swap(nt);
		std::map<int, int64_t> ne; for (auto& x : termEnd) ne[x.first == a ? b : x.first] = x.second; termEnd.swap(ne);
		std::set<Range> nz; for (auto x : zero) { if (x.r == a) x.r = b; nz.insert(x); } zero.swap(nz);
		std::map<int, Lin> nr; for (auto& x : rsize) nr[x.first == a ? b : x.first] = linRen(x.second, a, b); rsize.swap(nr);
		for (auto& x : slen) { valRen(x.first, a, b); x.second = linRen(x.second, a, b); }
		d.rename(a, b);
	}
};

static I pw(unsigned w) { return ((I)1) << w; }

// ---------------------------------------------------------------- results
struct Obl {
	std::string kind, msg, loc, fn, chain;
	bool reached = false, ok = true, trivial = true;
	int states = 0;
	std::string witness;
};
struct EntryResult {
	std::string name;
	std::map<std::string, Obl> obls; // key -> obligation
	std::map<std::string, int> reach;
	size_t blocks = 0, nodes = 0, states = 0, iters = 0, insts = 0, callsExternal = 0, calls = 0;
	std::set<std::string> srcFns;
	std::set<std::string> unmodelled;
	bool capped = false;
	bool failed = false;
	std::string error;
};

static std::string jesc(const std::string& s) {
	std::string r;
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

static std::string shortFn(std::string s) {
	s = demangle(s);
	// drop template argument lists to keep reports short
	std::string r; int depth = 0;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '(' && depth == 0) break;
		if (s[i] == '<') { if (!(i > 0 && i >= 8 && s.compare(i - 8, 8, "operator") == 0)) { depth++; continue; } }
		if (s[i] == '>') { if (depth > 0) { depth--; continue; } }
		if (depth == 0) r += s[i];
	}
	return r;
}
static std::string baseName(StringRef f) { size_t k = f.rfind("/src/"); if (k != StringRef::npos) return f.substr(k + 1).str(); k = f.rfind('/'); return (k == StringRef::npos ? f : f.substr(k + 1)).str(); }

static std::string fullPath(const DILocation* dl) {
	std::string f = dl->getFilename().str();
	if (!f.empty() && f[0] != '/') f = (dl->getDirectory() + "/" + f).str();
	return f;
}
static bool inScope(const Instruction* in) {
	const DILocation* dl = in->getDebugLoc();
	if (!dl) return false;
	return fullPath(dl).find(srcPrefix) != std::string::npos;
}
static bool envAccess(const Instruction* in) { // the environment reads or fills a buffer it was given
	const DILocation* dl = in->getDebugLoc();
	if (!dl) return false;
	const DISubprogram* sp = dl->getScope()->getSubprogram();
	return sp && (sp->getName() == "vf_load" || sp->getName() == "vf_store");
}
static std::string locOf(const Instruction* in) {
	const DILocation* dl = in->getDebugLoc();
	if (!dl) return "?";
	return baseName(dl->getFilename()) + ":" + std::to_string(dl->getLine());
}
static std::string fnOf(const Instruction* in) {
	const DILocation* dl = in->getDebugLoc();
	if (!dl) return "?";
	auto* sp = dl->getScope()->getSubprogram();
	if (!sp) return "?";
	return shortFn((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str());
}
static std::string chainOf(const Instruction* in) {
	std::string r;
	const DILocation* dl = in->getDebugLoc();
	int n = 0;
	for (; dl && n < 14; dl = dl->getInlinedAt(), n++) {
		auto* sp = dl->getScope()->getSubprogram();
		if (n) r += " < ";
		r += (sp ? shortFn((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()) : std::string("?")) + "@" + baseName(dl->getFilename()) + ":" + std::to_string(dl->getLine());
	}
	return r;
}

// ---------------------------------------------------------------- the analysis of one entry
struct Node { std::map<std::string, State> in; std::map<std::string, int> visits; };

class Analysis {
public:
	Function& F;
	const DataLayout& DL;
	EntryResult& R;
	std::map<const BasicBlock*, int> rpo;
	std::map<const BasicBlock*, std::set<const Value*, VLess>> liveIn;
	std::set<const BasicBlock*> heads;
	std::set<const BasicBlock*> nodes;
	std::map<const BasicBlock*, Node> N;
	bool checking = false;
	size_t CAP = optCap;
	size_t maxIter = optIter;
	size_t steps = 0;

	Analysis(Function& f, EntryResult& r) : F(f), DL(f.getParent()->getDataLayout()), R(r) {}

	// ---- helpers
	unsigned width(Type* t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }
	bool signedUse(const Value* v) {
		for (auto* u : v->users()) {
			if (auto* c = dyn_cast<ICmpInst>(u)) { if (c->isSigned()) return true; }
			else if (isa<SExtInst>(u) || isa<SIToFPInst>(u)) return true;
			else if (auto* b = dyn_cast<BinaryOperator>(u)) { if (b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::SRem || b->getOpcode() == Instruction::AShr) return true; }
			else if (auto* p = dyn_cast<PHINode>(u)) { if (p != v) for (auto* uu : p->users()) { if (auto* c = dyn_cast<ICmpInst>(uu)) if (c->isSigned()) return true; if (isa<SExtInst>(uu)) return true; } }
		}
		return false;
	}
	bool boolLoad(const Value* v) {
		if (!v->getType()->isIntegerTy(8) || v->use_empty()) return false;
		for (auto* u : v->users()) if (!(isa<TruncInst>(u) && u->getType()->isIntegerTy(1))) return false;
		return true;
	}
	// linear forms in use while a symbol is made: a symbol that gets a new meaning goes by its old name in them
	std::vector<Lin*> pins;
	struct Pin { std::vector<Lin*>& v; size_t n; Pin(std::vector<Lin*>& v, std::initializer_list<Lin*> l) : v(v), n(v.size()) { v.insert(v.end(), l); } ~Pin() { v.resize(n); } };
	bool pinned(int id) { for (auto* l : pins) for (auto& t : l->t) if (t.first == id) return true; return false; }
	void makeOld(State& s, int id) {
		int o = syms.old(id);
		if (pinned(o)) makeOld(s, o);
		s.renameSym(id, o);
		for (auto* l : pins) *l = linRen(*l, id, o);
	}
	int freshSym(State& s, char kind, const void* p, const std::string& tag, int n = 0) {
		int id = syms.get(kind, p, tag, n);
		if (s.d.find(id) >= 0 || s.mentions(id) || pinned(id)) makeOld(s, id);
		s.d.add(id);
		return id;
	}
	void bound(State& s, int sym, I lo, I hi) {
		int k = s.d.add(sym);
		s.d.constrain(0, k, -lo);
		s.d.constrain(k, 0, hi);
	}
	Val freshInt(State& s, const Value* at, const std::string& tag, int n, unsigned w, bool sgn) {
		int id = freshSym(s, 'F', at, tag, n);
		if (w > 64) w = 64;
		if (sgn) bound(s, id, -pw(w - 1), pw(w - 1) - 1); else bound(s, id, 0, pw(w) - 1);
		return Val::mkInt(Lin::sym(id));
	}
	Val freshOf(State& s, const Value* at, Type* t, const std::string& tag = "", int n = 0) {
		if (t->isIntegerTy()) {
			unsigned w = t->getIntegerBitWidth();
			if (boolLoad(at)) { int id = freshSym(s, 'F', at, tag, n); bound(s, id, 0, 1); return Val::mkInt(Lin::sym(id)); }
			return freshInt(s, at, tag, n, w, w > 1 && signedUse(at));
		}
		if (t->isPointerTy()) {
			int id = freshSym(s, 'F', at, tag + "p", n);
			bound(s, id, 0, pw(64) - 1);
			return Val::mkPtr(id, Lin());
		}
		if (auto* st = dyn_cast<StructType>(t)) {
			Val v; v.k = Val::AGG;
			for (unsigned i = 0; i < st->getNumElements(); i++) v.agg.push_back(freshOf(s, at, st->getElementType(i), tag + "." + std::to_string(i), n));
			return v;
		}
		return Val();
	}
	bool rootedNonNull(int base) { return base != 0 && (syms.info[base].kind == 'L' || syms.info[base].kind == 'G' || syms.info[base].kind == 'H'); }

	Val constVal(State& s, const Constant* c) {
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() == 1) return Val::mkInt(Lin(ci->isZero() ? 0 : 1));
			if (ci->getBitWidth() <= 64) return Val::mkInt(Lin((I)ci->getSExtValue()));
			return Val();
		}
		if (isa<ConstantPointerNull>(c)) return Val::mkPtr(0, Lin());
		if (auto* g = dyn_cast<GlobalValue>(c)) { return Val::mkPtr(syms.get('G', g, g->getName().str()), Lin()); }
		if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			if (ce->getOpcode() == Instruction::GetElementPtr) {
				auto* gep = cast<GEPOperator>(ce);
				return gepVal(s, gep, nullptr);
			}
			if (ce->getOpcode() == Instruction::IntToPtr) {
				Val v = constVal(s, ce->getOperand(0));
				if (v.k == Val::INT) return Val::mkPtr(0, v.lin);
			}
			if (ce->getOpcode() == Instruction::PtrToInt) {
				Val v = constVal(s, ce->getOperand(0));
				if (v.k == Val::PTR) return Val::mkInt(v.addr());
			}
		}
		if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c)) {
			if (auto* st = dyn_cast<StructType>(c->getType())) {
				Val v; v.k = Val::AGG;
				for (unsigned i = 0; i < st->getNumElements(); i++) v.agg.push_back(constVal(s, c->getAggregateElement(i)));
				return v;
			}
		}
		if (isa<UndefValue>(c)) {
			if (c->getType()->isIntegerTy()) return freshInt(s, c, "undef", 0, width(c->getType()), false);
			if (auto* st = dyn_cast<StructType>(c->getType())) { Val v; v.k = Val::AGG; v.agg.resize(st->getNumElements()); return v; }
		}
		return Val();
	}
	Val get(State& s, const Value* v) {
		if (auto* c = dyn_cast<Constant>(v)) {
			Val r = constVal(s, c);
			if (r.k == Val::NONE) return freshOf(s, v, v->getType(), "const");
			return r;
		}
		auto it = s.vals.find(v);
		if (it != s.vals.end() && it->second.k != Val::NONE) return it->second;
		Val f = freshOf(s, v, v->getType(), "val");
		if (f.k != Val::NONE) s.vals[v] = f;
		return f;
	}
	Lin asInt(State& s, const Value* v) {
		Val x = get(s, v);
		if (x.k == Val::INT) return x.lin;
		if (x.k == Val::PTR) return x.addr();
		if (x.k == Val::BOOL) {
			int t = evalPred(s, x.p);
			if (t >= 0) return Lin((I)t);
			int id = freshSym(s, 'F', v, "b2i"); bound(s, id, 0, 1);
			return Lin::sym(id);
		}
		Val f = freshInt(s, v, "ai", 0, width(v->getType()), false);
		return f.lin;
	}
	Val asPtr(State& s, const Value* v) {
		Val x = get(s, v);
		if (x.k == Val::PTR) return x;
		Val f = freshOf(s, v, PointerType::get(v->getContext(), 0), "ap");
		return f;
	}
	PredP asPred(State& s, const Value* v) {
		Val x = get(s, v);
		if (x.k == Val::BOOL) return x.p;
		if (x.k == Val::INT) return mkCmp(CmpInst::ICMP_NE, 8, x.lin, Lin());
		int id = freshSym(s, 'F', v, "pr"); bound(s, id, 0, 1);
		return mkCmp(CmpInst::ICMP_NE, 8, Lin::sym(id), Lin());
	}

	// ---- comparisons
	// the definitions of the symbols put in, as deep as they go
	Lin whole(State& s, Lin l) {
		for (int k = 0; k < 8; k++) {
			Lin r(l.c); bool any = false;
			for (auto& t : l.t) {
				const Lin* by = nullptr;
				for (auto& e : s.d.eqs) if (e.first == t.first) { by = &e.second; for (auto& x : e.second.t) if (x.first == t.first) by = nullptr; break; }
				if (by) { r = linAdd(r, *by, t.second); any = true; } else r = linAdd(r, Lin::sym(t.first), t.second);
			}
			if (!any || r.t.size() > 16) break;
			l = r;
		}
		return l;
	}
	bool norm(State& s, const Lin& l, unsigned w, bool sgn, Lin& out) {
		I lo = s.d.lo(l), hi = s.d.hi(l);
		I wl = sgn ? -pw(w - 1) : 0, wh = sgn ? pw(w - 1) - 1 : pw(w) - 1;
		for (int k : {0, 1, -1}) {
			I sh = (I)k * pw(w);
			if (lo > -INF && hi < INF && lo + sh >= wl && hi + sh <= wh) { out = linAdd(l, Lin(sh)); return true; }
		}
		if (l.t.size() >= 2 && !s.d.eqs.empty()) { // what cancels does not count either
			Lin l1 = whole(s, l);
			lo = s.d.lo(l1); hi = s.d.hi(l1);
			for (int k : {0, 1, -1}) {
				I sh = (I)k * pw(w);
				if (lo > -INF && hi < INF && lo + sh >= wl && hi + sh <= wh) { out = linAdd(l1, Lin(sh)); return true; }
			}
		}
		if (w < 64) { // multiples of 2^w do not count
			bool any = false; I m = pw(w); Lin r, l1 = l;
			for (auto& t : l.t) for (auto& e : s.d.eqs) if (e.first == t.first) l1 = linAdd(linAdd(l1, Lin::sym(t.first), -t.second), e.second, t.second);
			r.c = ((l1.c % m) + m) % m;
			for (auto& t : l1.t) { I k = ((t.second % m) + m) % m; if (k > m / 2) k -= m; if (k != t.second) any = true; if (k) r.t.push_back({t.first, k}); }
			if (any) return norm(s, r, w, sgn, out);
		}
		return false;
	}
	// a - b as an integer in (-2^w, 2^w) congruent to the difference; false if not possible
	bool normDiff(State& s, const Lin& a, const Lin& b, unsigned w, Lin& d) {
		Lin x = linSub(a, b);
		I lo = s.d.lo(x), hi = s.d.hi(x);
		if (lo <= -INF || hi >= INF) return false;
		for (int k : {0, 1, -1}) {
			I sh = (I)k * pw(w);
			if (lo + sh > -pw(w) && hi + sh < pw(w)) { d = linAdd(x, Lin(sh)); return true; }
		}
		return false;
	}
	int evalCmp(State& s, const Pred& p) {
		using C = CmpInst;
		if (p.cmp == C::ICMP_EQ || p.cmp == C::ICMP_NE) {
			Lin d;
			int r = -1;
			if (normDiff(s, p.a, p.b, p.w, d)) {
				if (d.t.size() == 2 && d.t[0].second == d.t[1].second && !syms.isTwin(d.t[0].first) && !syms.isTwin(d.t[1].first) && !syms.info[d.t[0].first].rooted() && !syms.info[d.t[1].first].rooted())
					for (auto& x : d.t) { s.d.add(x.first); s.d.addTwin(x.first); } // a sum is compared: keep its bound through joins
				I lo = s.d.lo(d), hi = s.d.hi(d);
				if (lo > 0 || hi < 0) r = 0; else if (lo == 0 && hi == 0) r = 1;
				else if (!s.d.eqs.empty()) { Lin d1 = whole(s, d); lo = s.d.lo(d1); hi = s.d.hi(d1); if (lo > 0 || hi < 0) r = 0; else if (lo == 0 && hi == 0) r = 1; }
				if (r >= 0) ;
				else if (d.t.size() == 1 && s.d.vs.count(d.t[0].first)) { Dbm::VS v; if (s.d.valuesOfLin(d, v) && !v[256]) r = 0; }
			} else {
				Lin x = linSub(p.a, p.b);
				if (x.t.empty()) { I v = x.c % pw(p.w); r = v == 0; }
			}
			if (r < 0) return -1;
			return p.cmp == C::ICMP_EQ ? r : !r;
		}
		bool sgn = CmpInst::isSigned(p.cmp);
		Lin a, b;
		if (!norm(s, p.a, p.w, sgn, a) || !norm(s, p.b, p.w, sgn, b)) return -1;
		Lin d = linSub(a, b);
		I lo = s.d.lo(d), hi = s.d.hi(d);
		if (!s.d.eqs.empty() && lo <= 0 && hi >= 0) { Lin d1 = whole(s, d); lo = std::max(lo, s.d.lo(d1)); hi = std::min(hi, s.d.hi(d1)); }
		switch (p.cmp) {
		case C::ICMP_ULT: case C::ICMP_SLT: return hi < 0 ? 1 : lo >= 0 ? 0 : -1;
		case C::ICMP_ULE: case C::ICMP_SLE: return hi <= 0 ? 1 : lo > 0 ? 0 : -1;
		case C::ICMP_UGT: case C::ICMP_SGT: return lo > 0 ? 1 : hi <= 0 ? 0 : -1;
		case C::ICMP_UGE: case C::ICMP_SGE: return lo >= 0 ? 1 : hi < 0 ? 0 : -1;
		default: return -1;
		}
	}
	int evalPred(State& s, const PredP& p) {
		switch (p->op) {
		case Pred::CMP: return evalCmp(s, *p);
		case Pred::NOT: { int x = evalPred(s, p->x); return x < 0 ? -1 : !x; }
		case Pred::AND: { int x = evalPred(s, p->x), y = evalPred(s, p->y); if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; return -1; }
		case Pred::OR: { int x = evalPred(s, p->x), y = evalPred(s, p->y); if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; return -1; }
		}
		return -1;
	}
	void assume(State& s, const PredP& p, bool pol) { assume0(s, p, pol); if (!s.dead()) s.d.sync(); }
	void assume0(State& s, const PredP& p, bool pol) {
		if (s.dead()) return;
		using C = CmpInst;
		switch (p->op) {
		case Pred::NOT: assume(s, p->x, !pol); return;
		case Pred::AND: case Pred::OR:
			if ((p->op == Pred::AND) == pol) { assume(s, p->x, pol); assume(s, p->y, pol); }
			else {
				int x = evalPred(s, p->x), y = evalPred(s, p->y);
				int neutral = p->op == Pred::AND ? 1 : 0;
				if (x == neutral) assume(s, p->y, pol);
				else if (y == neutral) assume(s, p->x, pol);
			}
			return;
		case Pred::CMP: break;
		}
		C::Predicate c = pol ? p->cmp : C::getInversePredicate(p->cmp);
		if (c == C::ICMP_EQ || c == C::ICMP_NE) {
			Lin d;
			if (!normDiff(s, p->a, p->b, p->w, d)) {
				// x == const with x in the other window
				return;
			}
			if (c == C::ICMP_EQ) s.d.assumeEq0(d);
			else {
				I lo = s.d.lo(d), hi = s.d.hi(d);
				if (lo == 0 && hi == 0) { s.d.bottom = true; return; }
				if (lo == 0) s.d.assumeLe0(linAdd(Lin((I)1), d, -1));
				if (hi == 0) s.d.assumeLe0(linAdd(d, Lin((I)1)));
				if (lo < 0 && hi > 0 && d.t.size() == 1 && (d.t[0].second == 1 || d.t[0].second == -1)) {
					I v0 = -d.c * d.t[0].second; Dbm::VS v;
					if (v0 >= -256 && v0 <= 511 && s.d.valuesOf(d.t[0].first, v)) { v.reset((size_t)(v0 + 256)); s.d.restrict(d.t[0].first, v); }
				}
			}
			return;
		}
		bool sgn = C::isSigned(c);
		Lin a, b;
		bool na = norm(s, p->a, p->w, sgn, a), nb = norm(s, p->b, p->w, sgn, b);
		// orient to a < b or a <= b
		auto lt = [&](const Lin& x, const Lin& y, bool strict) { Lin d = linSub(x, y); if (strict) d.c += 1; s.d.assumeLe0(d); };
		if (na && nb) {
			switch (c) {
			case C::ICMP_ULT: case C::ICMP_SLT: lt(a, b, true); break;
			case C::ICMP_ULE: case C::ICMP_SLE: lt(a, b, false); break;
			case C::ICMP_UGT: case C::ICMP_SGT: lt(b, a, true); break;
			case C::ICMP_UGE: case C::ICMP_SGE: lt(b, a, false); break;
			default: break;
			}
			return;
		}
		if (sgn && !na && nb && b.isConst()) {
			// a is in the unsigned window [0,2^w): x >=s k (k >= 0) means k <= x < 2^(w-1); x <s k (k<=0) means x >= 2^(w-1)
			I lo = s.d.lo(p->a), hi = s.d.hi(p->a);
			if (lo >= 0 && hi < pw(p->w)) {
				I k = b.c; bool ge = false, le = false;
				if (c == C::ICMP_SGE) ge = true;
				else if (c == C::ICMP_SGT) { ge = true; k += 1; }
				else if (c == C::ICMP_SLE) le = true;
				else if (c == C::ICMP_SLT) { le = true; k -= 1; }
				if (ge && k >= 0) { lt(Lin(k), p->a, false); lt(p->a, Lin(pw(p->w - 1)), true); }
				if (le && k < 0) { lt(Lin(pw(p->w - 1)), p->a, false); lt(p->a, Lin(pw(p->w) + k), false); }
			}
		}
		if (!sgn && na != nb) {
			// signed-window value compared as unsigned with a small constant: x <u k with k <= 2^(w-1) gives 0 <= x < k
			const Lin& u = na ? p->b : p->a; const Lin& kx = na ? a : b;
			I lo = s.d.lo(u), hi = s.d.hi(u);
			if (lo >= -pw(p->w - 1) && hi < pw(p->w - 1) && s.d.hi(kx) <= pw(p->w - 1)) {
				bool uIsA = !na;
				if (uIsA && (c == C::ICMP_ULT || c == C::ICMP_ULE)) { lt(Lin(), u, false); lt(u, kx, c == C::ICMP_ULT); }
				if (!uIsA && (c == C::ICMP_UGT || c == C::ICMP_UGE)) { lt(Lin(), u, false); lt(u, kx, c == C::ICMP_UGT); }
				// not below the constant, and not at or above it either: negative
				I kl = s.d.lo(kx);
				if (uIsA && ((c == C::ICMP_UGE && hi < kl) || (c == C::ICMP_UGT && hi <= kl))) lt(u, Lin(), true);
				if (!uIsA && ((c == C::ICMP_ULE && hi < kl) || (c == C::ICMP_ULT && hi <= kl))) lt(u, Lin(), true);
			}
		}
	}

	// ---- obligations
	Obl& obl(const Instruction* in, const std::string& kind, const std::string& msg) {
		std::string key = kind + "|" + msg + "|" + chainOf(in);
		auto it = R.obls.find(key);
		if (it == R.obls.end()) {
			Obl o; o.kind = kind; o.msg = msg; o.loc = locOf(in); o.fn = fnOf(in); o.chain = chainOf(in);
			it = R.obls.emplace(key, o).first;
		}
		return it->second;
	}
	void divides(State& s, const Instruction* in) { // by something other than zero
		if (!checking || isa<ConstantInt>(in->getOperand(1))) return;
		Lin b = asInt(s, in->getOperand(1)), o;
		bool sg = in->getOpcode() == Instruction::SDiv || in->getOpcode() == Instruction::SRem;
		Obl& ob = obl(in, "divide", "nothing is divided by zero");
		ob.reached = true; ob.states++; ob.trivial = false;
		if (norm(s, b, width(in->getType()), sg, o) && (s.d.lo(o) > 0 || s.d.hi(o) < 0)) return;
		ob.ok = false; if (ob.witness.empty()) ob.witness = "the divisor is " + rangeStr(s, b) + "; " + ghosts(s);
	}
	std::string linStr(const Lin& l) {
		std::string r;
		for (auto& x : l.t) { r += (r.empty() ? "" : " + "); if (x.second != 1) r += i2s(x.second) + "*"; r += symName(x.first); }
		if (l.c != 0 || r.empty()) r += (r.empty() ? "" : " + ") + i2s(l.c);
		return r;
	}
	std::string symName(int s) {
		auto& i = syms.info[s];
		std::string r(1, i.kind);
		r += std::to_string(s);
		if (i.kind == 'F' || i.kind == 'A' || i.kind == 'L') { auto* v = (const Value*)i.p; if (v && v->hasName()) r += "'" + v->getName().str(); }
		if (i.kind == 'G') r += "'" + i.tag;
		return r;
	}
	std::string rangeStr(State& s, const Lin& l) { return linStr(l) + " in [" + i2s(s.d.lo(l)) + "," + i2s(s.d.hi(l)) + "]"; }
	std::string ghosts(State& s) {
		std::string r;
		for (auto& c : s.cells) {
			auto& i = syms.info[c.first.first];
			if (i.kind == 'G' && i.tag.compare(0, 2, "g_") == 0) r += i.tag + (c.first.second ? "+" + std::to_string(c.first.second) : "") + "=" + (c.second.v.k == Val::INT ? rangeStr(s, c.second.v.lin) : "?") + " ";
		}
		return r;
	}

	// bounds of an access of size bytes at p
	void checkAccess(State& s, const Instruction* in, const Val& p, const Lin& size, const char* what, bool scopeAll = false) {
		if (p.k != Val::PTR || s.dead()) return;
		if (!scopeAll && !inScope(in) && !envAccess(in)) return;
		auto doit = [&](const Lin& lo, const Lin& sz, const char* regionKind) {
			Lin rel = linSub(p.lin, lo);
			Lin end = linSub(linAdd(rel, size), sz);
			bool triv = rel.isConst() && end.isConst();
			bool ok = s.d.lo(rel) >= 0 && s.d.hi(end) <= 0;
			bool empty = s.d.hi(size) <= 0; // nothing accessed
			if (empty) ok = true;
			if (checking) {
				Obl& o = obl(in, "bounds", std::string(what) + " within " + regionKind);
				o.reached = true; o.states++;
				if (!triv) o.trivial = false;
				if (!ok && getenv("ABSINT_BAD") && o.ok) { errs() << "BAD at " << o.chain << "\n   offset " << rangeStr(s, rel) << " size " << rangeStr(s, size) << " limit " << rangeStr(s, sz) << "\n"; dumpState(s); }
				if (!ok) { o.ok = false; if (o.witness.empty()) o.witness = "offset " + rangeStr(s, rel) + ", size " + rangeStr(s, size) + ", limit " + rangeStr(s, sz) + "; " + ghosts(s); }
			}
			if (!ok) { s.d.assumeLe0(linMul(rel, -1)); s.d.assumeLe0(end); }
		};
		if (p.hasSub) doit(p.subLo, p.subSz, "the array");
		else if (p.base) {
			auto it = s.rsize.find(p.base);
			if (it != s.rsize.end()) { Lin z = it->second; doit(Lin(), z, "the buffer"); }
			else if (checking && sized.count(p.base)) { Obl& o = obl(in, "bounds", std::string(what) + " within the buffer"); o.reached = true; o.states++; o.trivial = false; o.ok = false; if (o.witness.empty()) o.witness = "the size of the buffer was lost"; }
		}
	}

	std::set<int> sized; // regions whose size the harness gave
	// ---- memory
	void killRange(State& s, int r, int64_t lo, int64_t hi) { // [lo,hi)
		if (r == 0) return;
		bool rooted = syms.info[r].rooted();
		auto overlaps = [&](int64_t clo, int64_t chi) { return clo < hi && lo < chi; };
		for (auto it = s.cells.begin(); it != s.cells.end();) {
			bool same = it->first.first == r;
			bool mayAlias = !same && !rooted && !syms.info[it->first.first].rooted();
			if ((same || mayAlias) && overlaps(it->first.second, it->first.second + it->second.sz)) it = s.cells.erase(it); else ++it;
		}
		std::set<Range> nz;
		for (auto& z : s.zero) {
			bool hit = (z.r == r || (!rooted && !syms.info[z.r].rooted())) && overlaps(z.lo, z.hi);
			if (!hit) { nz.insert(z); continue; }
			if (z.lo < lo) nz.insert({z.r, z.lo, lo});
			if (hi < z.hi) nz.insert({z.r, hi, z.hi});
		}
		s.zero.swap(nz);
		for (size_t i = 0; i < s.sym.size();) {
			int b = s.sym[i].base;
			bool hit = b == r || (!rooted && !syms.info[b].rooted());
			if (hit && b == r && s.d.lo(s.sym[i].off) >= hi) hit = false;
			if (hit && b == r && satAdd(s.d.hi(s.sym[i].off), s.sym[i].sz) <= lo) hit = false;
			if (hit) s.sym.erase(s.sym.begin() + i); else i++;
		}
		for (size_t i = 0; i < s.slen.size();) {
			int b = s.slen[i].first.base;
			if (b == r && (hi <= s.d.lo(s.slen[i].first.lin) || lo > s.d.hi(linAdd(s.slen[i].first.lin, s.slen[i].second)))) { i++; continue; }
			if (b == r || (!rooted && !syms.info[b].rooted())) s.slen.erase(s.slen.begin() + i); else i++;
		}
		for (auto it = s.term.begin(); it != s.term.end();) if ((it->first == r && hi > it->second && !(s.termEnd.count(r) && lo >= s.termEnd[r])) || (it->first != r && !rooted && !syms.info[it->first].rooted())) { s.termEnd.erase(it->first); it = s.term.erase(it); } else ++it;
	}
	static const int64_t BIG = ((int64_t)1) << 60;
	void killRegion(State& s, int r) { killRange(s, r, -BIG, BIG); }
	int64_t clampOff(I v) { if (v > BIG) return BIG; if (v < -BIG) return -BIG; return (int64_t)v; }
	bool isGhostGlobal(int r) { return syms.info[r].kind == 'G' && syms.info[r].tag.compare(0, 2, "g_") == 0; }
	void clobberReach(State& s, int r) { // an opaque callee may write anything reachable from r
		std::set<int> seen; std::vector<int> q{r};
		while (!q.empty()) {
			int x = q.back(); q.pop_back();
			if (!x || isGhostGlobal(x) || !seen.insert(x).second) continue;
			if (syms.info[x].kind == 'G') { auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[x].p); if (!gv || gv->isConstant()) continue; }
			for (auto& c : s.cells) if (c.first.first == x && c.second.v.k == Val::PTR) q.push_back(c.second.v.base);
		}
		for (int x : seen) killRegion(s, x);
	}
	// an offset that can only be one number is that number
	Val pinned(State& s, const Val& p) {
		if (p.k != Val::PTR || !p.base || p.lin.isConst()) return p;
		I lo = s.d.lo(p.lin), hi = s.d.hi(p.lin);
		if (lo != hi) return p;
		Val q = p; q.lin = Lin(lo); return q;
	}
	bool same(State& s, const Lin& a, const Lin& b) { if (a == b) return true; Lin d = linSub(a, b); return s.d.lo(d) == 0 && s.d.hi(d) == 0; }
	Val loadVal(State& s, const Instruction* at, const Val& p0, Type* t) {
		Val p = pinned(s, p0);
		unsigned sz = (unsigned)DL.getTypeStoreSize(t).getFixedValue();
		if (p.k == Val::PTR && p.base && !p0.lin.isConst() && p.lin.isConst() && !cast<Instruction>(at)->isAtomic() && !cast<Instruction>(at)->isVolatile())
			for (auto& x : s.sym) if (x.base == p.base && x.sz == sz && x.off == p0.lin && ((t->isPointerTy() && x.v.k == Val::PTR) || (t->isIntegerTy() && x.v.k == Val::INT))) return x.v;
		if (p.k == Val::PTR && p.base && p.lin.isConst()) {
			int64_t off = clampOff(p.lin.c);
			auto it = s.cells.find({p.base, off});
			if (it != s.cells.end() && it->second.sz == sz) {
				const Val& v = it->second.v;
				bool okT = (t->isPointerTy() && v.k == Val::PTR) || (t->isIntegerTy() && (v.k == Val::INT || v.k == Val::BOOL)) || (t->isAggregateType() && v.k == Val::AGG);
				if (okT) return v;
			}
			if (it == s.cells.end() && !cast<Instruction>(at)->isAtomic() && !cast<Instruction>(at)->isVolatile()) // a place that turns out to be this one
				for (auto& x : s.sym) if (x.base == p.base && x.sz == sz && same(s, x.off, p.lin) && ((t->isPointerTy() && x.v.k == Val::PTR) || (t->isIntegerTy() && x.v.k == Val::INT))) return x.v;
			if (it == s.cells.end()) {
				// constant global?
				auto& si = syms.info[p.base];
				if (si.kind == 'G') if (auto* gv = dyn_cast<GlobalVariable>((const Value*)si.p)) if (gv->isConstant() && gv->hasDefinitiveInitializer()) {
					if (Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, (uint64_t)off, true), DL)) { Val v = constVal(s, c); if (v.k != Val::NONE) return v; }
				}
				for (auto& z : s.zero) if (z.r == p.base && z.lo <= off && off + (int64_t)sz <= z.hi) {
					bool over = false;
					for (auto& c : s.cells) if (c.first.first == p.base && c.first.second < off + (int64_t)sz && off < c.first.second + (int64_t)c.second.sz) over = true;
					if (!over) { if (t->isIntegerTy()) return Val::mkInt(Lin()); if (t->isPointerTy()) return Val::mkPtr(0, Lin()); }
				}
			}
			Val v = freshOf(s, at, t, "ld");
			// cache unless an overlapping cell of another shape exists
			bool over = false;
			for (auto& c : s.cells) if (c.first.first == p.base && c.first.second < off + (int64_t)sz && off < c.first.second + (int64_t)c.second.sz) over = true;
			if (!over && v.k != Val::NONE && !cast<Instruction>(at)->isAtomic() && !cast<Instruction>(at)->isVolatile()) s.cells[{p.base, off}] = Cell{v, sz};
			return v;
		}
		if (p.k == Val::PTR && p.base && syms.info[p.base].kind == 'G' && t->isIntegerTy(8)) { // an element of a constant table
			auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[p.base].p);
			if (gv && gv->isConstant() && gv->hasDefinitiveInitializer()) if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) if (ca->getElementType()->isIntegerTy(8)) {
				I lo = s.d.lo(p.lin), hi = s.d.hi(p.lin);
				if (lo < 0) lo = 0; if (hi > (I)ca->getNumElements() - 1) hi = (I)ca->getNumElements() - 1;
				if (lo <= hi && hi - lo < 4096) {
					Dbm::VS vs;
					for (I i = lo; i <= hi; i++) vs.set((size_t)ca->getElementAsInteger((unsigned)i) + 256);
					int id = freshSym(s, 'F', at, "tab");
					bound(s, id, 0, 255);
					s.d.restrict(id, vs);
					return Val::mkInt(Lin::sym(id));
				}
			}
		}
		if (p.k == Val::PTR && p.base && !cast<Instruction>(at)->isAtomic() && !cast<Instruction>(at)->isVolatile()) {
			for (auto& x : s.sym) if (x.base == p.base && x.sz == sz && same(s, x.off, p.lin)) {
				if ((t->isPointerTy() && x.v.k == Val::PTR) || (t->isIntegerTy() && x.v.k == Val::INT)) return x.v;
			}
			Val v = freshOf(s, at, t, "ld");
			if (v.k == Val::PTR || v.k == Val::INT) { if (s.sym.size() >= 6) s.sym.erase(s.sym.begin()); s.sym.push_back({p.base, p.lin, sz, v}); }
			return v;
		}
		return freshOf(s, at, t, "ld");
	}
	void storeVal(State& s, const Val& p0, const Val& v, unsigned sz) {
		Val p = pinned(s, p0);
		if (p.k != Val::PTR || p.base == 0) return;
		I lo = s.d.lo(p.lin), hi = s.d.hi(p.lin);
		if (p.hasSub) { I l2 = s.d.lo(p.subLo), h2 = s.d.hi(linAdd(p.subLo, p.subSz)); if (l2 > lo) lo = l2; if (h2 < INF && h2 - 1 < hi) hi = h2 - 1; }
		std::vector<SymCell> apart; // places that are provably different
		if (!p0.lin.isConst()) for (auto& x : s.sym) if (x.base == p.base) { Lin d = linSub(x.off, p.lin); if (s.d.lo(d) >= (I)sz || s.d.hi(d) <= -(I)x.sz) apart.push_back(x); }
		killRange(s, p.base, clampOff(lo), clampOff(satAdd(hi, sz)));
		for (auto& x : apart) if (std::find(s.sym.begin(), s.sym.end(), x) == s.sym.end()) s.sym.push_back(x);
		if (p.lin.isConst() && v.k != Val::NONE) s.cells[{p.base, clampOff(p.lin.c)}] = Cell{v, sz};
		if (p0.lin.isConst()) return;
		if (v.k == Val::PTR || v.k == Val::INT) { if (s.sym.size() >= 6) s.sym.erase(s.sym.begin()); s.sym.push_back({p.base, p0.lin, sz, v}); }
	}
	void initFromConst(State& s, int r, int64_t off, Constant* c, int depth = 0) {
		Type* t = c->getType();
		if (t->isIntegerTy() || t->isPointerTy()) {
			Val v = constVal(s, c);
			if (v.k != Val::NONE && !isa<UndefValue>(c)) s.cells[{r, off}] = Cell{v, (unsigned)DL.getTypeStoreSize(t).getFixedValue()};
		} else if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); i++) if (auto* e = c->getAggregateElement(i)) initFromConst(s, r, off + (int64_t)sl->getElementOffset(i), e, depth + 1);
		} else if (auto* at = dyn_cast<ArrayType>(t)) {
			if (at->getNumElements() > 64) return;
			uint64_t es = DL.getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); i++) if (auto* e = c->getAggregateElement(i)) initFromConst(s, r, off + (int64_t)(i * es), e, depth + 1);
		}
	}
	Val gepVal(State& s, const GEPOperator* g, const Instruction* in) {
		Val p = asPtr(s, g->getPointerOperand());
		Lin off = p.lin;
		bool hasSub = p.hasSub; Lin subLo = p.subLo, subSz = p.subSz;
		bool first = true;
		for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
			const Value* idx = it.getOperand();
			if (StructType* st = it.getStructTypeOrNull()) {
				unsigned k = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
				off = linAdd(off, Lin((I)(uint64_t)DL.getStructLayout(st)->getElementOffset(k)));
				Type* ft = st->getElementType(k);
				if (auto* at = dyn_cast<ArrayType>(ft)) {
					if (at->getNumElements() > 1) { hasSub = true; subLo = off; subSz = Lin((I)(uint64_t)DL.getTypeAllocSize(at)); }
					else { hasSub = false; }
				}
			} else {
				Type* et = it.getIndexedType();
				I es = (I)(uint64_t)DL.getTypeAllocSize(et);
				if (!first) {
					// entering an array
					if (auto* st = dyn_cast_or_null<ArrayType>(firstArrayType(g, it))) {
						if (st->getNumElements() > 1) { hasSub = true; subLo = off; subSz = Lin((I)(uint64_t)DL.getTypeAllocSize(st)); }
					}
				}
				Lin i;
				if (auto* ci = dyn_cast<ConstantInt>(idx)) i = Lin((I)ci->getSExtValue());
				else {
					Val iv = get(s, idx);
					i = iv.k == Val::INT ? iv.lin : asInt(s, idx);
					if (idx->getType()->getIntegerBitWidth() < 64) { Lin o; if (norm(s, i, idx->getType()->getIntegerBitWidth(), true, o)) i = o; else i = freshInt(s, idx, "gi", 0, 64, true).lin; }
					else { Lin o; if (norm(s, i, 64, true, o)) i = o; }
				}
				off = linAdd(off, linMul(i, es));
			}
			first = false;
		}
		if (off.t.size() >= 2 && off != p.lin) for (auto& e : s.d.eqs) for (auto& t : off.t) if (t.first == e.first) { // a named sum or difference that cancels
			Lin r = linAdd(linSub(off, linMul(Lin::sym(t.first), t.second)), linMul(e.second, t.second));
			if (r.t.size() < off.t.size()) { off = r; break; }
			break;
		}
		if (off.t.size() > 5) { off = Lin::sym(freshSym(s, 'F', g, "off")); bound(s, off.t[0].first, -pw(63), pw(64)); }
		Val r = Val::mkPtr(p.base, off);
		r.hasSub = hasSub; r.subLo = subLo; r.subSz = subSz;
		return r;
	}
	Type* firstArrayType(const GEPOperator* g, gep_type_iterator stop) {
		// type being indexed by this (non-first) sequential index
		Type* cur = g->getSourceElementType();
		auto it = gep_type_begin(g); ++it;
		for (auto e = gep_type_end(g); it != e; ++it) {
			if (it.getOperand() == stop.getOperand() && it.getIndexedType() == stop.getIndexedType()) return cur;
			if (it.getStructTypeOrNull()) cur = it.getIndexedType();
			else if (auto* a = dyn_cast<ArrayType>(cur)) cur = a->getElementType();
		}
		return cur;
	}

	// ---- partition key
	std::string keyOf(State& s, const BasicBlock* b, bool full) {
		std::string k;
		for (auto& c : s.cells) if (isGhostGlobal(c.first.first) && c.second.v.k == Val::INT) {
			I v; if (constOf(s, c.second.v.lin, v)) k += syms.info[c.first.first].tag + "+" + std::to_string(c.first.second) + "=" + i2s(v) + ";";
		}
		for (auto& c : keyCells) { auto it = s.cells.find(c); I v; if (it != s.cells.end() && it->second.v.k == Val::INT && constOf(s, it->second.v.lin, v)) k += "k" + std::to_string(c.first) + "+" + std::to_string(c.second) + "=" + i2s(v) + ";"; }
		if (b->isLandingPad()) k += "exc=" + (s.exc ? s.exc->getName().str() : std::string("?")) + ";";
		if (!full) return "~" + k;
		for (auto& c : s.cells) if (c.second.sz == 1 && c.second.v.k == Val::INT && syms.info[c.first.first].kind == 'A' && isObjectArg(c.first.first)) { // small state fields of the analysed objects
			I v; if (constOf(s, c.second.v.lin, v)) k += "f" + std::to_string(c.first.first) + "+" + std::to_string(c.first.second) + "=" + i2s(v) + ";";
		}
		for (auto* v : liveIn[b]) addKey(s, v, k);
		for (auto& phi : b->phis()) addKey(s, &phi, k);
		return k;
	}
	bool isObjectArg(int r) { auto* a = dyn_cast_or_null<Argument>((const Value*)syms.info[r].p); return a && a->getDereferenceableBytes() > 0; }
	bool constOf(State& s, const Lin& l, I& v) {
		if (l.isConst()) { v = l.c; return true; }
		I a = s.d.lo(l), b = s.d.hi(l);
		if (a == b) { v = a; return true; }
		return false;
	}
	std::set<CellKey> keyCells; // memory named by vf_key: states are kept apart by its contents
	std::map<const Value*, int> ordinal;
	void addKey(State& s, const Value* v, std::string& k) {
		auto* phi = dyn_cast<PHINode>(v);
		if (!phi) return;
		auto it = s.vals.find(v);
		if (it == s.vals.end()) return;
		const Val& x = it->second;
		std::string id = "v" + std::to_string(ordinal[v]);
		if (v->getType()->isIntegerTy(1)) {
			if (x.isConstInt()) k += id + "=" + i2s(x.lin.c) + ";";
		} else if (v->getType()->isIntegerTy(8) && x.isConstInt() && (x.lin.c == 0 || x.lin.c == 1) && boolish(phi)) { k += id + "=" + i2s(x.lin.c) + ";";
		} else if ((v->getType()->isIntegerTy(8) || v->getType()->isIntegerTy(16)) && x.isConstInt() && constish(phi)) { k += id + "=" + i2s(x.lin.c) + ";";
		} else if (v->getType()->isIntegerTy(32)) {
			if (x.isConstInt() && v->getName().contains("ehsel")) k += id + "=" + i2s(x.lin.c) + ";";
			else if (v->getName().contains("cleanup.dest") && x.isConstInt()) k += id + "=" + i2s(x.lin.c) + ";";
			else if (x.isConstInt() && x.lin.c >= 0 && x.lin.c <= smallCounter(phi)) k += id + "=" + i2s(x.lin.c) + ";";
			else if (x.isConstInt() && optCount > 0 && heads.count(phi->getParent()) && width(v->getType()) <= 32) { I c = x.lin.c; if (c > pw(width(v->getType()) - 1)) c -= pw(width(v->getType())); if (c < 0 && -c <= optCount) k += id + "=" + i2s(c) + ";"; }
		} else if (v->getType()->isIntegerTy(64) && x.isConstInt() && x.lin.c >= 0 && x.lin.c <= smallCounter(phi)) { k += id + "=" + i2s(x.lin.c) + ";";
		} else if (optConsts && v->getType()->isIntegerTy(64) && !heads.count(phi->getParent())) { k += id + "=" + (x.isConstInt() ? i2s(x.lin.c) : std::string("*")) + ";";
		} else if (v->getType()->isPointerTy()) {
			if (x.k == Val::PTR && (x.base == 0 || syms.info[x.base].rooted()) ) k += id + "=p" + std::to_string(x.base) + (x.lin.isConst() && (!heads.count(phi->getParent()) || phi->getName().starts_with("array") || (optCount > 0 && x.lin.c >= 0 && x.lin.c <= optCount)) ? "," + i2s(x.lin.c) : "") + ";";
			else k += id + "=p*;";
		}
	}
	std::map<const PHINode*, int> counterMemo; // optCount: loop counters up to here are told apart
	int smallCounter(const PHINode* p) { // the small constant a loop counter is compared with
		auto it = counterMemo.find(p);
		if (it != counterMemo.end()) return it->second;
		int r = heads.count(p->getParent()) ? (int)optCount : -1;
		if (heads.count(p->getParent())) for (auto* u : p->users()) if (auto* c = dyn_cast<ICmpInst>(u)) if (auto* k = dyn_cast<ConstantInt>(c->getOperand(1))) if (k->getBitWidth() >= 32 && k->getBitWidth() <= 64 && k->getZExtValue() >= 1 && k->getZExtValue() <= 16) r = std::max(r, (int)k->getZExtValue());
		return counterMemo[p] = r;
	}
	std::map<const PHINode*, int> constishMemo;
	bool constish(const PHINode* p) { // only ever set to constants
		auto it = constishMemo.find(p);
		if (it != constishMemo.end()) return it->second;
		constishMemo[p] = 1;
		bool ok = true;
		for (auto& u : p->incoming_values()) {
			if (isa<ConstantInt>(u) || isa<UndefValue>(u)) continue;
			auto* q = dyn_cast<PHINode>(u);
			if (!q || !constish(q)) { ok = false; break; }
		}
		constishMemo[p] = ok;
		return ok;
	}
	std::map<const PHINode*, int> boolishMemo;
	bool boolish(const PHINode* p) {
		auto it = boolishMemo.find(p);
		if (it != boolishMemo.end()) return it->second;
		boolishMemo[p] = 1;
		bool ok = true;
		for (auto& u : p->incoming_values()) {
			if (auto* c = dyn_cast<ConstantInt>(u)) { if (c->getZExtValue() > 1) ok = false; }
			else if (auto* z = dyn_cast<ZExtInst>(u)) { if (!z->getSrcTy()->isIntegerTy(1)) ok = false; }
			else if (auto* q = dyn_cast<PHINode>(u)) { if (!boolish(q)) ok = false; }
			else if (isa<UndefValue>(u)) {}
			else ok = false;
		}
		boolishMemo[p] = ok;
		return ok;
	}

	// ---- join
	std::string slotKey(const Value* v) { return "v" + std::to_string(ordinal[v]); }
	void prune(State& s, const BasicBlock* b) {
		auto& L = liveIn[b];
		for (auto it = s.vals.begin(); it != s.vals.end();) {
			bool keep = L.count(it->first) || (isa<PHINode>(it->first) && cast<PHINode>(it->first)->getParent() == b) || isa<Argument>(it->first);
			if (!keep) it = s.vals.erase(it); else ++it;
		}
		s.gc();
	}
	void ageJoinSyms(State& s, const BasicBlock* b) {
		std::set<int> r; s.refs(r);
		for (int x : s.d.ids) r.insert(x);
		std::vector<int> js;
		for (int x : r) if (syms.info[x].kind == 'J' && syms.info[x].p == b) js.push_back(x);
		for (int x : js) s.renameSym(x, syms.old(x));
	}
	void twinOf(State& s, int J, const Lin& e) { // J == x + c: the twins differ by -c
		if (e.t.size() != 1 || e.t[0].second != 1 || syms.isTwin(J)) return;
		int t = syms.hasTwin(e.t[0].first);
		if (t < 0 || s.d.find(t) < 0) return;
		int k = s.d.addTwin(J);
		if (s.d.bottom) return;
		s.d.constrain(k, s.d.find(t), -e.c); if (s.d.bottom) return;
		s.d.constrain(s.d.find(t), k, e.c);
	}
	// J == expr (mod window) in s; returns nothing, J is added
	void defineJ(State& s, int J, const Lin& expr, I wl, I wh, unsigned w) {
		s.d.add(J);
		I lo = s.d.lo(expr), hi = s.d.hi(expr);
		for (int k : {0, 1, -1}) {
			I sh = w >= 100 ? 0 : (I)k * pw(w);
			if (lo > -INF && hi < INF && lo + sh >= wl && hi + sh <= wh) { s.d.assumeEq0(linSub(Lin::sym(J), linAdd(expr, Lin(sh)))); twinOf(s, J, linAdd(expr, Lin(sh))); if (expr.t.size() == 1 && s.d.vs.count(expr.t[0].first)) { Dbm::VS v; if (s.d.valuesOfLin(linAdd(expr, Lin(sh)), v)) s.d.restrict(J, v); } return; }
		}
		bound(s, J, wl, wh);
	}
	bool inWin(State& s, const Lin& l, unsigned w) { I lo = s.d.lo(l), hi = s.d.hi(l); return lo >= -pw(w - 1) && hi < pw(w) && hi < INF && (lo >= 0 || hi < pw(w - 1)); }
	bool joinVal(State& A, State& B, const Val& a, const Val& b, const BasicBlock* blk, const std::string& slot, Type* t, const Value* sv, Val& out) {
		if (a == b) {
			bool wrap = false;
			if (a.k == Val::INT && a.lin.t.size() == 1 && t && t->isIntegerTy(64)) for (int k = 0; k < 2 && !wrap; k++) {
				State &S = k ? B : A, &T = k ? A : B;
				wrap = S.d.lo(a.lin) >= pw(64) - 4096 && S.d.hi(a.lin) < pw(64) && T.d.hi(a.lin) < pw(63);
			}
			if (!wrap) { out = a; return true; }
		}
		unsigned w = t && t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
		if (a.k == Val::NONE || b.k == Val::NONE) return false;
		if (a.k == Val::PTR && b.k == Val::PTR) {
			if (a.base == b.base) {
				out = a;
				if (!(a.hasSub == b.hasSub && (!a.hasSub || (a.subLo == b.subLo && a.subSz == b.subSz)))) out.hasSub = false;
				if (a.lin != b.lin) {
					for (auto& m : joinMemo) if (std::get<0>(m) == a.lin && std::get<1>(m) == b.lin) { out.lin = Lin::sym(std::get<2>(m)); return true; }
					for (auto& m : joinMemo) { // moves along with a value already joined
						Lin d = linSub(a.lin, std::get<0>(m));
						if (d == linSub(b.lin, std::get<1>(m)) && d.t.size() <= 2) { out.lin = linAdd(d, Lin::sym(std::get<2>(m))); return true; }
					}
					for (size_t i = 0; i < joinMemo.size(); i++) for (size_t j = i + 1; j < joinMemo.size(); j++) { // ... or with two of them
						auto &m = joinMemo[i], &n = joinMemo[j];
						if (std::get<2>(m) == std::get<2>(n) || std::get<0>(m).t.size() + std::get<0>(n).t.size() > 3) continue;
						Lin d = linSub(linSub(a.lin, std::get<0>(m)), std::get<0>(n));
						if (d.isConst() && d == linSub(linSub(b.lin, std::get<1>(m)), std::get<1>(n))) { out.lin = linAdd(linAdd(d, Lin::sym(std::get<2>(m))), Lin::sym(std::get<2>(n))); return true; }
					}
					int J = syms.get('J', blk, slot + "o");
					if (getenv("ABSINT_PJ")) { errs() << "PJ " << blk->getName() << " " << slot << " a " << linStr(a.lin) << " b " << linStr(b.lin) << " -> " << symName(J) << "\n"; for (auto& m : joinMemo) errs() << "   memo " << linStr(std::get<0>(m)) << " | " << linStr(std::get<1>(m)) << " | " << symName(std::get<2>(m)) << "\n"; }
					joinMemo.push_back(std::make_tuple(a.lin, b.lin, J));
					bool aIs = a.lin == Lin::sym(J);
					if (aIs) A.d.add(J); else { defineJfree(A, J, a.lin); }
					defineJfree(B, J, b.lin);
					out.lin = Lin::sym(J);
				}
				return true;
			}
			auto named = [&](const Val& v) { return v.lin.isConst() && v.lin.c == 0 && (v.base == 0 || !syms.info[v.base].rooted()); };
			bool both = named(a) && named(b);
			if (both) for (auto& m : joinMemo) if (std::get<0>(m) == a.addr() && std::get<1>(m) == b.addr()) { out = Val::mkPtr(std::get<2>(m), Lin()); return true; }
			int J = syms.get('J', blk, slot + "p");
			auto def = [&](State& S, const Val& v) {
				if (v.base == J && v.lin == Lin()) { S.d.add(J); return; }
				S.d.add(J);
				if (v.base == 0) { S.d.assumeEq0(linSub(Lin::sym(J), v.lin)); }
				else if (syms.info[v.base].rooted()) bound(S, J, nonNull(S, v) ? 1 : 0, pw(64) - 1);
				else { bound(S, J, nonNull(S, v) ? 1 : 0, pw(64) - 1); if (v.lin.isConst() && v.lin.c == 0) S.d.assumeEq0(linSub(Lin::sym(J), Lin::sym(v.base))); }
			};
			def(A, a); def(B, b);
			if (both) joinMemo.push_back(std::make_tuple(a.addr(), b.addr(), J));
			out = Val::mkPtr(J, Lin());
			return true;
		}
		auto lin = [&](State& S, const Val& v, Lin& l) {
			if (v.k == Val::INT) { l = v.lin; return true; }
			if (v.k == Val::BOOL) { int e = evalPred(S, v.p); if (e >= 0) { l = Lin((I)e); return true; } l = Lin(); return false; }
			return false;
		};
		if (a.k == Val::BOOL && b.k == Val::BOOL) { PredP p = joinPred(a.p, b.p); if (p) { out = Val::mkBool(p); return true; } }
		if ((a.k == Val::INT || a.k == Val::BOOL) && (b.k == Val::INT || b.k == Val::BOOL)) {
			if (a.k == Val::INT && b.k == Val::INT) for (auto& m : joinMemo) if (std::get<0>(m) == a.lin && std::get<1>(m) == b.lin && inWin(A, a.lin, w) && inWin(B, b.lin, w)) { out = Val::mkInt(Lin::sym(std::get<2>(m))); return true; }
			if (a.k == Val::INT && b.k == Val::INT && w > 8 && inWin(A, a.lin, w) && inWin(B, b.lin, w)) for (auto& m : joinMemo) { // two values with a constant sum stay so
				Lin sa = linAdd(a.lin, std::get<0>(m)), sb = linAdd(b.lin, std::get<1>(m));
				if (!sa.isConst() || sa != sb || sa.c < 1 || sa.c > 1000000 || A.d.lo(a.lin) < 0 || B.d.lo(b.lin) < 0 || A.d.lo(std::get<0>(m)) < 0 || B.d.lo(std::get<1>(m)) < 0) continue;
				out = Val::mkInt(linSub(sa, Lin::sym(std::get<2>(m)))); return true;
			}
			if (a.k == Val::INT && b.k == Val::INT && w >= 32 && a.lin.t.size() >= 3 && inWin(A, a.lin, w) && inWin(B, b.lin, w) && A.d.lo(a.lin) >= 0 && B.d.lo(b.lin) >= 0) for (auto& m : joinMemo) { // a total moves along with one of its parts
				Lin d = linSub(a.lin, std::get<0>(m));
				if (d.t.size() < 2 || d.t.size() >= a.lin.t.size() + std::get<0>(m).t.size() || d != linSub(b.lin, std::get<1>(m))) continue;
				out = Val::mkInt(linAdd(d, Lin::sym(std::get<2>(m)))); return true;
			}
			if (optSums && a.k == Val::INT && b.k == Val::INT && w >= 32 && inWin(A, a.lin, w) && inWin(B, b.lin, w)) for (int exact = 1; exact >= 0; exact--) {
				size_t N = joinMemo.size(); // a total moves along with its parts (one or two of them), and what is left
				for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) {
					Lin ma = std::get<0>(joinMemo[i]), mb = std::get<1>(joinMemo[i]), na, nb, mj = Lin::sym(std::get<2>(joinMemo[i])), nj;
					size_t j2 = j == i ? N : j; // two of them first
					if (j2 == N) { if (i + 1 < N && !exact) continue; } else { na = std::get<0>(joinMemo[j]); nb = std::get<1>(joinMemo[j]); nj = Lin::sym(std::get<2>(joinMemo[j])); }
					Lin d = linSub(linSub(a.lin, ma), na), e = linSub(linSub(b.lin, mb), nb);
					if (d.t.size() + ma.t.size() + na.t.size() != a.lin.t.size() || e.t.size() + mb.t.size() + nb.t.size() != b.lin.t.size() || d.t.size() > 3 || (exact && d != e)) continue;
					if (A.d.lo(d) < 0 || B.d.lo(e) < 0 || A.d.lo(ma) < 0 || A.d.lo(na) < 0 || B.d.lo(mb) < 0 || B.d.lo(nb) < 0) continue;
					Val l; if (exact) l = Val::mkInt(d); else if (!joinVal(A, B, Val::mkInt(d), Val::mkInt(e), blk, slot + "-", t, nullptr, l) || l.k != Val::INT || l.lin.t.size() > 2) continue;
					out = Val::mkInt(linAdd(linAdd(l.lin, mj), nj)); return true;
				}
			}
			if (getenv("ABSINT_IJ") && slot.find(getenv("ABSINT_IJ")) != std::string::npos) { errs() << "IJ " << blk->getName() << " " << slot << " a " << linStr(a.lin) << " b " << linStr(b.lin) << "\n"; for (auto& m : joinMemo) errs() << "   memo " << linStr(std::get<0>(m)) << " | " << linStr(std::get<1>(m)) << " -> " << symName(std::get<2>(m)) << "\n"; }
			int J = syms.get('J', blk, slot);
			bool isB = a.k == Val::BOOL || b.k == Val::BOOL || w == 1;
			I wl, wh;
			if (isB) { wl = 0; wh = 1; if (w > 1) { wh = (a.k == Val::BOOL && b.k == Val::BOOL) ? 1 : pw(w) - 1; } }
			else {
				bool sg = sv ? signedUse(sv) : false;
				if (!sg) { // negative constants suggest a signed variable
					for (auto* S : {&A, &B}) { const Val& v = S == &A ? a : b; if (v.k == Val::INT && S->d.lo(v.lin) < 0 && S->d.lo(v.lin) >= -pw(w - 1)) sg = true; }
					for (auto* S : {&A, &B}) { // the largest value of a word next to small values: a "none" mark
						State& T = S == &A ? B : A; const Val &v = S == &A ? a : b, &u = S == &A ? b : a;
						if (w == 64 && v.k == Val::INT && u.k == Val::INT && S->d.lo(v.lin) >= pw(64) - 4096 && S->d.hi(v.lin) < pw(64) && T.d.hi(u.lin) < pw(63)) sg = true;
					}
					if (syms.info[J].n) sg = true;
				}
				wl = sg ? -pw(w - 1) : 0; wh = sg ? pw(w - 1) - 1 : pw(w) - 1;
			}
			Lin la, lb;
			bool ha = lin(A, a, la), hb = lin(B, b, lb);
			if (ha) { if (la == Lin::sym(J)) A.d.add(J); else defineJ(A, J, la, wl, wh, w); } else bound(A, J, 0, 1);
			if (hb) defineJ(B, J, lb, wl, wh, w); else bound(B, J, 0, 1);
			if (a.k == Val::INT && b.k == Val::INT && A.d.lo(la) >= wl && A.d.hi(la) <= wh && B.d.lo(lb) >= wl && B.d.hi(lb) <= wh) joinMemo.push_back(std::make_tuple(la, lb, J));
			out = Val::mkInt(Lin::sym(J));
			return true;
		}
		if (a.k == Val::AGG && b.k == Val::AGG && a.agg.size() == b.agg.size()) {
			out.k = Val::AGG; out.agg.resize(a.agg.size());
			for (size_t i = 0; i < a.agg.size(); i++) {
				Type* et = t && t->isStructTy() ? t->getStructElementType((unsigned)i) : nullptr;
				if (!joinVal(A, B, a.agg[i], b.agg[i], blk, slot + "." + std::to_string(i), et, nullptr, out.agg[i])) out.agg[i] = Val();
			}
			return true;
		}
		return false;
	}
	void defineJfree(State& s, int J, const Lin& e) { s.d.add(J); if (s.d.lo(e) > -INF || s.d.hi(e) < INF || true) s.d.assumeEq0(linSub(Lin::sym(J), e)); twinOf(s, J, e); }
	bool nonNull(State& s, const Val& v) {
		if (v.k != Val::PTR) return false;
		if (rootedNonNull(v.base)) return true;
		if (v.base == 0) return s.d.lo(v.lin) >= 1 || s.d.hi(v.lin) < 0;
		return s.d.loSym(v.base) >= 1;
	}
	std::vector<std::tuple<Lin, Lin, int>> joinMemo; // equal pairs of values share one join symbol
	// definitions valid on both sides, possibly through the symbols created by this join
	void joinEqs(State& A, State& B, State& out) {
		auto find = [](State& s, int id) -> const Lin* { for (auto& e : s.d.eqs) if (e.first == id) return &e.second; return nullptr; };
		auto expand = [&](State& s, const Lin& l) -> Lin { if (l.t.size() == 1 && l.t[0].second == 1) if (auto* e = find(s, l.t[0].first)) return linAdd(*e, Lin(l.c)); return l; };
		auto tryEq = [&](int S, const Lin& va, const Lin& vb) {
			for (auto& e : out.d.eqs) if (e.first == S) return;
			auto mentions = [&](const Lin& l) { for (auto& t : l.t) if (t.first == S) return true; return false; };
			if (va == vb) { if (!va.isConst() && !mentions(va)) out.d.eqs.push_back({S, va}); return; }
			Lin diff = linSub(vb, va);
			for (auto& m : joinMemo) {
				int K = std::get<2>(m);
				if (K == S) continue;
				Lin dd = linSub(std::get<1>(m), std::get<0>(m));
				for (I k : {(I)-1, (I)1}) if (diff == linMul(dd, k)) {
					Lin r = linAdd(linAdd(va, std::get<0>(m), -k), Lin::sym(K), k);
					if (!r.isConst() && !mentions(r) && r.t.size() <= 4) { out.d.eqs.push_back({S, r}); return; }
				}
			}
		};
		for (auto& e : A.d.eqs) if (auto* f = find(B, e.first)) tryEq(e.first, e.second, *f);
		for (auto& m : joinMemo) {
			Lin va = expand(A, std::get<0>(m)), vb = expand(B, std::get<1>(m));
			if (va != std::get<0>(m) || vb != std::get<1>(m)) tryEq(std::get<2>(m), va, vb);
		}
	}
	// the joined name of two linear forms, from the pairs already joined
	PredP joinPred(const PredP& p, const PredP& q) { // the same condition over joined values
		if (predEq(p, q)) return p;
		if (!p || !q || p->op != q->op) return nullptr;
		if (p->op == Pred::CMP) {
			if (p->cmp != q->cmp || p->w != q->w) return nullptr;
			Lin a, b;
			if (!joinedForm(p->a, q->a, Lin(), a, 0) || !joinedForm(p->b, q->b, Lin(), b, 0)) return nullptr;
			return mkCmp(p->cmp, p->w, a, b);
		}
		PredP x = joinPred(p->x, q->x); if (!x) return nullptr;
		if (p->op == Pred::NOT) return mkNot(x);
		PredP y = joinPred(p->y, q->y); if (!y) return nullptr;
		return mkBin(p->op, x, y);
	}
	bool joinedForm(const Lin& x, const Lin& y, const Lin& acc, Lin& out, int depth) {
		if (x == y) { out = linAdd(x, acc); return true; }
		if (depth >= 3) return false;
		auto part = [](const Lin& l, const Lin& of) { for (auto& t : l.t) { bool f = false; for (auto& u : of.t) if (u.first == t.first && u.second == t.second) f = true; if (!f) return false; } return !l.t.empty(); };
		for (auto& m : joinMemo) {
			const Lin &la = std::get<0>(m), &lb = std::get<1>(m);
			if (!part(la, x) && !part(lb, y)) continue;
			if ((!la.t.empty() && !part(la, x)) || (!lb.t.empty() && !part(lb, y))) continue;
			if (joinedForm(linSub(x, la), linSub(y, lb), linAdd(acc, Lin::sym(std::get<2>(m))), out, depth + 1)) return true;
		}
		return false;
	}
	State join(State A, State B, const BasicBlock* b) {
		State out;
		joinMemo.clear();
		out.exc = A.exc == B.exc ? A.exc : nullptr;
		for (int pass = 0; pass < 2; pass++) for (auto& x : A.vals) { // integers first: a pointer may move along with one
			if ((x.second.k == Val::PTR) != (pass == 1)) continue;
			auto it = B.vals.find(x.first);
			if (it == B.vals.end()) continue;
			Val v;
			Val a = x.second, bb = it->second;
			if (joinVal(A, B, a, bb, b, slotKey(x.first), x.first->getType(), x.first, v)) out.vals[x.first] = v;
		}
		for (auto& x : A.cells) {
			auto it = B.cells.find(x.first);
			if (it == B.cells.end() || it->second.sz != x.second.sz) continue;
			Val v;
			Type* t = nullptr;
			if (x.second.v.k != Val::PTR) t = x.second.sz <= 8 ? (Type*)IntegerType::get(F.getContext(), x.second.sz * 8) : nullptr;
			Val a = x.second.v, bb = it->second.v;
			if (joinVal(A, B, a, bb, b, "c" + std::to_string(x.first.first) + ":" + std::to_string(x.first.second), t, nullptr, v)) out.cells[x.first] = Cell{v, x.second.sz};
		}
		for (auto& z : A.zero) if (B.zero.count(z)) out.zero.insert(z);
		int scn = 0;
		std::vector<SymCell> asym = A.sym, bsym = B.sym;
		{ // a place that is constant on one side and variable on the other
			std::set<int> ra, rb;
			for (auto& x : A.sym) ra.insert(x.base);
			for (auto& x : B.sym) rb.insert(x.base);
			auto lift = [&](const State& s, const std::set<int>& rs, std::vector<SymCell>& to) { int k = 0; for (auto& c : s.cells) if (rs.count(c.first.first) && c.second.sz == 1 && c.second.v.k == Val::INT && k++ < 8) to.push_back({c.first.first, Lin((I)c.first.second), c.second.sz, c.second.v}); };
			lift(B, ra, bsym); lift(A, rb, asym);
		}
		for (auto& x : asym) for (auto& y : bsym) {
			if (x.off.isConst() && y.off.isConst()) continue;
			if (x == y) { out.sym.push_back(x); continue; }
			if (x.base != y.base || x.sz != y.sz || x.v.k != y.v.k || (x.v.k != Val::INT && !(x.v == y.v))) continue;
			Lin off = x.off;
			if (x.off != y.off) {
				bool ok = false;
				Lin acc;
				ok = joinedForm(x.off, y.off, acc, off, 0);
				if (!ok) continue;
			}
			bool dup = false;
			for (auto& z : out.sym) if (z.base == x.base && z.off == off && z.sz == x.sz) dup = true;
			if (dup) continue;
			Val v;
			if (x.v == y.v) v = x.v;
			else if (!joinVal(A, B, x.v, y.v, b, "s" + std::to_string(x.base) + ":" + linStr(off), IntegerType::get(F.getContext(), x.sz * 8), nullptr, v)) continue;
			out.sym.push_back({x.base, off, x.sz, v});
			if (++scn > 12) break;
		}
		if (getenv("ABSINT_SC") && out.sym.size() < asym.size()) { errs() << "SC join at " << b->getName() << "\n"; for (auto& x : asym) errs() << "   a " << symName(x.base) << "+" << linStr(x.off) << " = " << linStr(x.v.lin) << "\n"; for (auto& x : bsym) errs() << "   b " << symName(x.base) << "+" << linStr(x.off) << " = " << linStr(x.v.lin) << "\n"; for (auto& m : joinMemo) errs() << "   memo " << linStr(std::get<0>(m)) << " | " << linStr(std::get<1>(m)) << " | " << symName(std::get<2>(m)) << "\n"; }
		{
			auto ar = A.rsize, br = B.rsize;
			for (auto& z : ar) {
				auto it = br.find(z.first);
				if (it == br.end()) continue;
				if (it->second == z.second) { out.rsize.insert(z); continue; }
				Val v;
				if (joinVal(A, B, Val::mkInt(z.second), Val::mkInt(it->second), b, "r" + std::to_string(z.first), IntegerType::get(F.getContext(), 64), nullptr, v) && v.k == Val::INT) out.rsize[z.first] = v.lin;
			}
		}
		for (auto& z : A.slen) for (auto& y : B.slen) if (z.first == y.first && z.second == y.second) out.slen.push_back(z);
		if (wantFormat) {
			std::set<int> rs;
			for (auto& x : A.term) rs.insert(x.first);
			for (auto& x : A.slen) rs.insert(x.first.base);
			for (auto& x : A.sym) if (x.sz == 1) rs.insert(x.base);
			for (auto& x : A.cells) if (x.second.sz == 1) rs.insert(x.first.first);
			for (int k : rs) { int64_t a, bb; if (k && syms.info[k].rooted() && !isGhostGlobal(k) && zeroFrom(A, k, a) && zeroFrom(B, k, bb)) { out.term[k] = std::min(a, bb); auto x = A.term.find(k), y = B.term.find(k); auto xe = A.termEnd.find(k), ye = B.termEnd.find(k); if (x != A.term.end() && y != B.term.end() && xe != A.termEnd.end() && ye != B.termEnd.end() && x->second == a && y->second == bb) out.termEnd[k] = std::max(xe->second, ye->second); } }
		}
		if (A.d.bottom) { out.d = B.d; }
		else if (B.d.bottom) { out.d = A.d; }
		else {
			joinEqs(A, B, out);
			std::set<int> keep; out.refs(keep);
			auto eqs = out.d.eqs;
			out.d = Dbm::join(A.d, B.d, keep);
			for (auto& e : eqs) { bool ok = out.d.find(e.first) >= 0; for (auto& t : e.second.t) if (out.d.find(t.first) < 0) ok = false; if (ok) out.d.eqs.push_back(e); }
		}
		out.gc();
		return out;
	}
	static bool same(const State& a, const State& b) {
		if (a.vals != b.vals || !(a.cells == b.cells) || a.exc != b.exc || a.slen.size() != b.slen.size() || a.term != b.term || a.termEnd != b.termEnd || !(a.zero == b.zero) || !(a.sym == b.sym) || a.rsize != b.rsize) return false;
		if (a.d.eqs != b.d.eqs) { auto x = a.d.eqs, y = b.d.eqs; auto lt = [](const std::pair<int, Lin>& p, const std::pair<int, Lin>& q) { return p.first < q.first; }; std::sort(x.begin(), x.end(), lt); std::sort(y.begin(), y.end(), lt); if (x != y) return false; }
		if (a.d.vs != b.d.vs) return false;
		if (a.d.links != b.d.links && std::set<Dbm::Link>(a.d.links.begin(), a.d.links.end()) != std::set<Dbm::Link>(b.d.links.begin(), b.d.links.end())) return false;
		std::set<int> sa(a.d.ids.begin(), a.d.ids.end()), sb(b.d.ids.begin(), b.d.ids.end());
		if (sa != sb) return false;
		for (size_t i = 0; i < a.d.n(); i++) for (size_t j = 0; j < a.d.n(); j++) {
			int x = b.d.find(a.d.ids[i]), y = b.d.find(a.d.ids[j]);
			if (a.d.at(i, j) != b.d.at(x, y)) return false;
		}
		return true;
	}
	std::set<I> thSum;
	std::set<I> thUp, thLo; // thresholds: the constants the program compares with
	void widen(const State& prev, State& nw, bool hard, bool harder) {
		for (auto it = nw.term.begin(); it != nw.term.end();) {
			auto o = prev.term.find(it->first);
			if (o == prev.term.end() || o->second == it->second) { ++it; continue; }
			nw.termEnd.erase(it->first);
			if (it->second >= 0) { it->second = 0; ++it; } else it = nw.term.erase(it);
		}
		size_t n = nw.d.n();
		std::vector<int> pi(n);
		for (size_t i = 0; i < n; i++) pi[i] = prev.d.find(nw.d.ids[i]);
		for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
			if (i == j) continue;
			I o = (pi[i] >= 0 && pi[j] >= 0) ? prev.d.at(pi[i], pi[j]) : INF;
			if (pi[i] < 0 || pi[j] < 0) { if (!harder) continue; }
			if (nw.d.at(i, j) > o || (hard && o >= INF)) {
				I lim = INF;
				// sums: the constants the program subtracts from
				if (nw.d.ids[i] && nw.d.ids[j] && syms.isTwin(nw.d.ids[j]) != syms.isTwin(nw.d.ids[i])) { auto ti = thSum.lower_bound(nw.d.at(i, j)); if (ti != thSum.end()) lim = *ti; }
				// thresholds for bounds: window limits keep integer symbols inside a machine word
				if (nw.d.ids[j] == 0 || nw.d.ids[i] == 0) {
					I v = nw.d.at(i, j);
					size_t q = nw.d.ids[j] == 0 ? i : j;
					if (nw.d.ids[j] == 0 && pi[q] >= 0 && (optWide ? nw.d.at(0, q) <= 1 : nw.d.at(0, q) == 1)) { auto ti = (nw.d.ids[j] == 0 ? thUp : thLo).lower_bound(v); if (ti != (nw.d.ids[j] == 0 ? thUp : thLo).end()) lim = *ti; }
					if (lim >= INF) for (I th : {(I)0, (I)1, pw(31) - 1, pw(31), pw(32) - 1, pw(63) - 1, pw(63), pw(64) - 1}) if (v <= th) { lim = th; break; }
				}
				if (getenv("ABSINT_WID") && nw.d.ids[j] == 0) errs() << "WID " << symName(nw.d.ids[i]) << " " << i2s(o) << " -> " << i2s(nw.d.at(i, j)) << " -> " << i2s(lim) << " lo " << i2s(nw.d.at(0, i)) << " hard " << hard << "\n";
				nw.d.at(i, j) = lim;
			}
		}
		if (!hard) nw.d.closeAll();
		for (auto it = nw.d.vs.begin(); it != nw.d.vs.end();) {
			auto o = prev.d.vs.find(it->first);
			if (hard && (o == prev.d.vs.end() || o->second != it->second)) it = nw.d.vs.erase(it); else ++it;
		}
	}

	// ---- propagation
	std::set<std::pair<int, std::string>> work; // (rpo, key)
	std::vector<const BasicBlock*> rpoBlocks;
	std::map<const BasicBlock*, std::vector<const BasicBlock*>> inner; // loop heads inside the loop of a head
	std::map<const BasicBlock*, std::map<std::string, State>>* collect = nullptr; // narrowing: arrivals are joined here
	const BasicBlock* collectOnly = nullptr;
	std::vector<std::pair<const BasicBlock*, State>> tree;

	void arrive(const BasicBlock* b, State&& s) {
		if (s.dead()) return;
		if (collect) {
			if (collectOnly && b != collectOnly) return;
			prune(s, b); ageJoinSyms(s, b);
			auto& m = (*collect)[b];
			std::string k = keyFor(s, b, m.size(), [&](const std::string& kk) { return m.count(kk) > 0; });
			auto it = m.find(k);
			if (it == m.end()) m.emplace(k, std::move(s)); else it->second = join(it->second, s, b);
			return;
		}
		prune(s, b); ageJoinSyms(s, b);
		Node& nd = N[b];
		std::string k = keyFor(s, b, nd.in.size(), [&](const std::string& kk) { return nd.in.count(kk) > 0; });
		auto it = nd.in.find(k);
		if (it == nd.in.end()) { nd.in.emplace(k, std::move(s)); nd.visits[k] = 1; work.insert({rpo[b], k}); return; }
		State j = join(it->second, s, b);
		int& v = nd.visits[k];
		if (same(j, it->second)) return;
		v++;
		if (v > 3) {
			auto li = limit.find(b);
			if (li != limit.end()) { auto y = li->second.in.find(k); if (y != li->second.in.end()) { State t = join(y->second, j, b); if (same(t, y->second)) { it->second = y->second; work.insert({rpo[b], k}); return; } } }
		}
		if (heads.count(b) ? v > optDelay : v > 40) widen(it->second, j, v > 14, v > 40);
		if (same(j, it->second)) return;
		if (debugOn && v > 30) dumpDiff(b, it->second, j, v);
		if (const char* g = getenv("ABSINT_ARR")) if (heads.count(b) && chainOf(b->getTerminator()).find(g) != std::string::npos) { errs() << "ARR " << b->getName() << " v" << v << " " << k.substr(0, 100) << "\n"; for (size_t i = 0; i < j.d.n(); i++) for (size_t q = 0; q < j.d.n(); q++) if (i != q && j.d.at(i, q) < INF && (syms.isTwin(j.d.ids[i]) || syms.isTwin(j.d.ids[q]))) errs() << " " << symName(j.d.ids[i]) << "-" << symName(j.d.ids[q]) << "<=" << i2s(j.d.at(i, q)); errs() << "\n"; for (auto& x : j.vals) if (x.second.k == Val::INT) errs() << " " << x.first->getName() << "=" << linStr(x.second.lin) << rangeStr(j, x.second.lin); errs() << "\n"; }
		if (v <= 12) { auto in = inner.find(b); if (in != inner.end()) for (auto* h : in->second) { auto nh = N.find(h); if (nh != N.end()) for (auto& x : nh->second.visits) if (x.second > 2) x.second = 2; } } // a new state of the outer loop: the inner loops start over
		it->second = std::move(j);
		work.insert({rpo[b], k});
	}
	void dumpDiff(const BasicBlock* b, State& o, State& n, int v) {
		errs() << "revisit " << v << " block " << b->getName() << "\n";
		for (auto& x : n.vals) { auto it = o.vals.find(x.first); if (it == o.vals.end() || !(it->second == x.second)) errs() << "  val " << x.first->getName() << "\n"; }
	}
	template <class Has> std::string keyFor(State& s, const BasicBlock* b, size_t have, Has has) {
		std::string k = keyOf(s, b, true);
		if (have >= CAP && !has(k)) { R.capped = true; k = keyOf(s, b, false); }
		return k;
	}

	void edge(State s, const BasicBlock* from, const BasicBlock* to) {
		if (s.dead()) return;
		std::vector<std::pair<const Value*, Val>> nv;
		for (auto& phi : to->phis()) {
			const Value* in = phi.getIncomingValueForBlock(from);
			nv.push_back({&phi, isa<UndefValue>(in) ? Val() : get(s, in)});
		}
		for (auto& x : nv) if (x.second.k == Val::NONE) s.vals.erase(x.first); else s.vals[x.first] = x.second;
		if (nodes.count(to)) arrive(to, std::move(s));
		else tree.push_back({to, std::move(s)});
	}

	void runTree(const BasicBlock* b, State s) {
		tree.push_back({b, std::move(s)});
		while (!tree.empty()) {
			auto x = std::move(tree.back()); tree.pop_back();
			if (!nodes.count(x.first)) pruneLight(x.second, x.first);
			block(x.first, std::move(x.second));
		}
	}
	void pruneLight(State& s, const BasicBlock* b) {
		if (s.d.n() > 40 || s.vals.size() > 80) prune(s, b);
	}

	// ---- instructions
	void block(const BasicBlock* b, State s0) {
		if (checking) if (const char* bn = getenv("ABSINT_BLOCK")) if (b->getName() == bn) { errs() << "BLOCK " << bn << "\n"; dumpState(s0); for (auto& x : s0.vals) errs() << "   val " << x.first->getName() << " = " << valStr(s0, x.second) << "\n"; }
		std::deque<std::pair<BasicBlock::const_iterator, State>> q;
		q.push_back({BasicBlock::const_iterator(b->getFirstNonPHI()->getIterator()), std::move(s0)});
		while (!q.empty()) {
			auto it = q.front().first; State s = std::move(q.front().second); q.pop_front();
			for (; it != b->end(); ++it) {
				if (s.dead()) break;
				if (++steps > 40000000) { R.failed = true; R.error = "step limit"; return; }
				if (it->isTerminator()) { terminator(&*it, s); break; }
				if (auto* sel = dyn_cast<SelectInst>(&*it)) {
					if (!sel->getType()->isIntegerTy(1)) {
						PredP p = asPred(s, sel->getCondition());
						int e = evalPred(s, p);
						if (e < 0) {
							State s2 = s;
							assume(s2, p, false);
							if (!s2.dead()) { Val v = get(s2, sel->getFalseValue()); s2.vals[sel] = v; auto nx = it; ++nx; q.push_back({nx, std::move(s2)}); }
							assume(s, p, true); e = 1;
							if (s.dead()) break;
						}
						s.vals[sel] = get(s, e ? sel->getTrueValue() : sel->getFalseValue());
						continue;
					}
				}
				exec(&*it, s);
			}
		}
	}
	void set(State& s, const Instruction* in, const Val& v) { if (v.k == Val::NONE) s.vals.erase(in); else s.vals[in] = v; }

	void exec(const Instruction* in, State& s) {
		switch (in->getOpcode()) {
		case Instruction::Alloca: {
			auto* a = cast<AllocaInst>(in);
			int r = syms.get('L', a);
			killRegion(s, r);
			if (auto sz = a->getAllocationSize(DL)) s.rsize[r] = Lin((I)(uint64_t)sz->getFixedValue());
			Val v = Val::mkPtr(r, Lin());
			if (auto* at = dyn_cast<ArrayType>(a->getAllocatedType())) { (void)at; }
			set(s, in, v);
			return;
		}
		case Instruction::Load: {
			Val p = asPtr(s, in->getOperand(0));
			checkAccess(s, in, p, Lin((I)(uint64_t)DL.getTypeStoreSize(in->getType()).getFixedValue()), "read");
			if (s.dead()) return;
			Val v = loadVal(s, in, p, in->getType());
			if (in->getType()->isPointerTy() && in->hasMetadata(LLVMContext::MD_nonnull) && v.k == Val::PTR && v.base && !syms.info[v.base].rooted()) bound(s, v.base, 1, pw(64) - 1);
			set(s, in, v);
			return;
		}
		case Instruction::Store: {
			auto* st = cast<StoreInst>(in);
			Val p = asPtr(s, st->getPointerOperand());
			unsigned sz = (unsigned)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
			checkAccess(s, in, p, Lin((I)sz), "write");
			if (s.dead()) return;
			Val v = get(s, st->getValueOperand());
			if (v.k == Val::BOOL) { int e = evalPred(s, v.p); if (e >= 0) v = Val::mkInt(Lin((I)e)); }
			storeVal(s, p, v, sz);
			return;
		}
		case Instruction::GetElementPtr: set(s, in, gepVal(s, cast<GEPOperator>(in), in)); return;
		case Instruction::ICmp: set(s, in, icmp(s, cast<ICmpInst>(in))); return;
		case Instruction::Select: { // i1
			auto* sel = cast<SelectInst>(in);
			PredP c = asPred(s, sel->getCondition()), t = asPred(s, sel->getTrueValue()), f = asPred(s, sel->getFalseValue());
			set(s, in, mk(s, mkBin(Pred::OR, mkBin(Pred::AND, c, t), mkBin(Pred::AND, mkNot(c), f))));
			return;
		}
		case Instruction::Freeze: case Instruction::BitCast: {
			if (in->getOperand(0)->getType() == in->getType()) set(s, in, get(s, in->getOperand(0))); else set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::PtrToInt: { Val p = asPtr(s, in->getOperand(0)); set(s, in, Val::mkInt(p.addr())); return; }
		case Instruction::IntToPtr: {
			Val v = get(s, in->getOperand(0));
			if (v.k == Val::INT) { if (v.lin.isConst()) { set(s, in, Val::mkPtr(0, v.lin)); return; } }
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::Trunc: {
			Val v = get(s, in->getOperand(0));
			unsigned w = width(in->getType());
			if (v.k == Val::BOOL) { set(s, in, v); return; }
			if (v.k == Val::INT) {
				if (w == 1) {
					I lo = s.d.lo(v.lin), hi = s.d.hi(v.lin);
					if (v.lin.isConst()) { set(s, in, Val::mkInt(Lin((I)(v.lin.c & 1)))); return; }
					if (lo >= 0 && hi <= 1) { set(s, in, v); return; }
					set(s, in, freshInt(s, in, "tr", 0, 1, false)); return;
				}
				set(s, in, v); // exact modulo 2^w
				return;
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::ZExt: case Instruction::SExt: {
			Val v = get(s, in->getOperand(0));
			unsigned w = width(in->getOperand(0)->getType());
			if (v.k == Val::BOOL) { if (in->getOpcode() == Instruction::ZExt) { set(s, in, v); return; } set(s, in, freshOf(s, in, in->getType())); return; }
			if (v.k == Val::INT) {
				if (w == 1) { if (in->getOpcode() == Instruction::ZExt) set(s, in, v); else set(s, in, Val::mkInt(linMul(v.lin, -1))); return; }
				Lin o;
				bool sg = in->getOpcode() == Instruction::SExt;
				if (norm(s, v.lin, w, sg, o)) { set(s, in, Val::mkInt(o)); return; }
				if (w == 8 && v.lin.t.size() == 1 && v.lin.t[0].second == 1) for (auto& k : s.d.links) if (k.x == v.lin.t[0].first && k.c == v.lin.c && k.sg == sg) { set(s, in, Val::mkInt(Lin::sym(k.e))); return; } // extended before
				Pin pin(pins, {&v.lin}); int id = freshSym(s, 'F', in, "ext");
				if (sg) bound(s, id, -pw(w - 1), pw(w - 1) - 1); else bound(s, id, 0, pw(w) - 1);
				if (w == 8 && v.lin.t.size() == 1 && v.lin.t[0].second == 1) {
					s.d.links.push_back({id, v.lin.t[0].first, v.lin.c, sg});
					s.d.sync();
					if (s.dead()) return;
				}
				set(s, in, Val::mkInt(Lin::sym(id)));
				// make the source value an alias of the extended one when it is a plain symbol (same value modulo 2^w)
				return;
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::Add: case Instruction::Sub: {
			Lin a = asInt(s, in->getOperand(0)), b = asInt(s, in->getOperand(1));
			Lin r = in->getOpcode() == Instruction::Add ? linAdd(a, b) : linSub(a, b);
			if (r.t.size() > (optSums ? 8 : 5) || width(in->getType()) > 64) { set(s, in, freshOf(s, in, in->getType())); return; }
			if (optSums && r.t.size() >= 2 && (s.d.hi(r) >= pw(width(in->getType())) || s.d.lo(r) < -pw(width(in->getType()) - 1))) { set(s, in, freshOf(s, in, in->getType())); return; } // may wrap: one value from here on
			I lim = pw(80);
			if (r.c > lim || r.c < -lim) { set(s, in, freshOf(s, in, in->getType())); return; }
			if (in->getOpcode() == Instruction::Sub && isa<ConstantInt>(in->getOperand(0)) && a.c > 1 && a.c < 65536 && b.t.size() == 1 && b.t[0].second == 1 && !syms.isTwin(b.t[0].first) && !syms.info[b.t[0].first].rooted()) { s.d.add(b.t[0].first); s.d.addTwin(b.t[0].first); } // capacity - length: sums with the length will be bounded
			// a sum or difference of several variables gets a name of its own: the zone can then bound it
			if (!optSums && (r.t.size() >= 2 || (r.t.size() == 1 && in->getOpcode() == Instruction::Sub && !isa<Constant>(in->getOperand(0)) && !isa<Constant>(in->getOperand(1)) && !(r.t[0].second == 1 && isa<PtrToIntInst>(in->getOperand(0)) && isa<PtrToIntInst>(in->getOperand(1))))) && width(in->getType()) >= 32) {
				Lin o;
				bool sg = signedUse(in);
				if (norm(s, r, width(in->getType()), sg, o)) {
					Pin pin(pins, {&o}); int id = freshSym(s, 'F', in, "def");
					bound(s, id, s.d.lo(o), s.d.hi(o));
					s.d.add(id);
					std::vector<int> all = s.d.ids;
					for (int x : all) { // relation with every variable in view
						if (x == id || x == 0 || syms.info[x].rooted()) continue;
						Lin rest = linSub(o, Lin::sym(x)); // id - x
						I h = s.d.hi(rest), l = s.d.lo(rest);
						if (h < INF) s.d.constrain(s.d.find(id), s.d.find(x), h);
						if (l > -INF) s.d.constrain(s.d.find(x), s.d.find(id), -l);
						if (s.dead()) return;
					}
					s.d.define(id, o);
					r = Lin::sym(id);
				}
			}
			set(s, in, Val::mkInt(r));
			return;
		}
		case Instruction::Mul: case Instruction::Shl: {
			unsigned w = width(in->getType());
			Lin a = asInt(s, in->getOperand(0)), b = asInt(s, in->getOperand(1));
			I k = 0; bool have = false; Lin x;
			if (in->getOpcode() == Instruction::Shl) { if (b.isConst() && b.c >= 0 && b.c < (I)w) { k = pw((unsigned)b.c); x = a; have = true; } }
			else if (b.isConst()) { k = b.c; x = a; have = true; }
			else if (a.isConst()) { k = a.c; x = b; have = true; }
			if (have && k < pw(48) && k > -pw(48)) {
				I lo = s.d.lo(x), hi = s.d.hi(x);
				if (lo > -INF && hi < INF) {
					set(s, in, Val::mkInt(linMul(x, k)));
					return;
				}
			}
			if (!have && in->getOpcode() == Instruction::Shl) { // by an unknown number of bits, less than the width
				Lin ob; I lb = 0, hb = w - 1;
				if (norm(s, b, w, false, ob)) { lb = std::max(lb, s.d.lo(ob)); hb = std::min(hb, s.d.hi(ob)); }
				if (a.isConst() && a.c > 0 && a.c < pw(30) && lb <= hb && a.c * pw((unsigned)hb) < pw(w)) { int id = freshSym(s, 'F', in, "shl"); bound(s, id, a.c * pw((unsigned)lb), a.c * pw((unsigned)hb)); set(s, in, Val::mkInt(Lin::sym(id))); return; }
			}
			else if (!have) {
				Lin oa, ob;
				if (norm(s, a, w, false, oa) && norm(s, b, w, false, ob)) {
					I ha = s.d.hi(oa), hb = s.d.hi(ob);
					if (ha < pw(60) && hb < pw(60) && ha * hb < pw(w)) { int id = freshSym(s, 'F', in, "mul"); bound(s, id, s.d.lo(oa) * s.d.lo(ob), ha * hb); set(s, in, Val::mkInt(Lin::sym(id))); return; }
				}
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::UDiv: case Instruction::LShr: case Instruction::SDiv: case Instruction::AShr: {
			unsigned w = width(in->getType());
			bool sg = in->getOpcode() == Instruction::SDiv || in->getOpcode() == Instruction::AShr;
			if (in->getOpcode() == Instruction::UDiv || in->getOpcode() == Instruction::SDiv) divides(s, in);
			Lin a = asInt(s, in->getOperand(0)), b = asInt(s, in->getOperand(1)), o;
			I k = 0;
			if (b.isConst() && b.c > 0) { if (in->getOpcode() == Instruction::LShr || in->getOpcode() == Instruction::AShr) { if (b.c < (I)w) k = pw((unsigned)b.c); } else k = b.c; }
			if (k > 0 && norm(s, a, w, sg, o)) {
				// exact division when all coefficients are multiples
				bool ex = o.c % k == 0; for (auto& t : o.t) if (t.second % k != 0) ex = false;
				if (ex) { Lin r; r.c = o.c / k; for (auto& t : o.t) r.t.push_back({t.first, t.second / k}); set(s, in, Val::mkInt(r)); return; }
				I lo = s.d.lo(o), hi = s.d.hi(o);
				if (lo >= 0) { // multiples, and a rest below the divisor
					Lin q, r, o1 = whole(s, o);
					r.c = ((o1.c % k) + k) % k; q.c = (o1.c - r.c) / k;
					for (auto& t : o1.t) if (t.second % k == 0) q.t.push_back({t.first, t.second / k}); else r.t.push_back(t);
					if (I rl = s.d.lo(r); rl > -INF && (rl < 0 || rl >= k)) { I n = rl >= 0 ? rl / k : -((-rl + k - 1) / k); r.c -= n * k; q.c += n; }
					if (s.d.lo(r) >= 0 && s.d.hi(r) < k) { set(s, in, Val::mkInt(q)); return; }
				}
				Pin pin(pins, {&o}); int id = freshSym(s, 'F', in, "div");
				if (lo >= 0) bound(s, id, lo / k, hi / k); else bound(s, id, -((-lo + k - 1) / k), hi >= 0 ? hi / k : 0);
				if (lo >= 0 && k >= 1) { // q <= a
					s.d.assumeLe0(linSub(Lin::sym(id), o));
					if (k > 1) {} 
				}
				set(s, in, Val::mkInt(Lin::sym(id)));
				return;
			}
			Lin ob;
			if (k == 0 && in->getOpcode() == Instruction::UDiv && norm(s, a, w, false, o) && norm(s, b, w, false, ob)) { // by at least 1
				Pin pin(pins, {&o, &ob}); int id = freshSym(s, 'F', in, "div"); bound(s, id, s.d.hi(linSub(ob, o)) <= 0 && s.d.lo(ob) > 0 ? 1 : 0, s.d.hi(o));
				s.d.assumeLe0(linSub(Lin::sym(id), o));
				set(s, in, Val::mkInt(Lin::sym(id)));
				return;
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::URem: case Instruction::SRem: {
			unsigned w = width(in->getType());
			bool sg = in->getOpcode() == Instruction::SRem;
			divides(s, in);
			Lin a = asInt(s, in->getOperand(0)), b = asInt(s, in->getOperand(1)), o;
			if (b.isConst() && b.c > 0 && norm(s, a, w, sg, o)) {
				I lo = s.d.lo(o), hi = s.d.hi(o);
				if (lo >= 0 && hi < b.c) { set(s, in, Val::mkInt(o)); return; }
				if (lo >= 0) { // multiples, and a rest below the divisor
					Lin r, o1 = whole(s, o);
					r.c = ((o1.c % b.c) + b.c) % b.c;
					for (auto& t : o1.t) if (t.second % b.c != 0) r.t.push_back(t);
					if (I rl = s.d.lo(r); rl > -INF && (rl < 0 || rl >= b.c)) r.c -= (rl >= 0 ? rl / b.c : -((-rl + b.c - 1) / b.c)) * b.c;
					if (s.d.lo(r) >= 0 && s.d.hi(r) < b.c) { set(s, in, Val::mkInt(r)); return; }
				}
				int id = freshSym(s, 'F', in, "rem");
				bound(s, id, lo >= 0 ? 0 : -(b.c - 1), b.c - 1);
				set(s, in, Val::mkInt(Lin::sym(id)));
				return;
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::And: case Instruction::Or: case Instruction::Xor: {
			unsigned w = width(in->getType());
			Val va = get(s, in->getOperand(0)), vb = get(s, in->getOperand(1));
			bool boolA = w == 1 || va.k == Val::BOOL || (va.k == Val::INT && s.d.lo(va.lin) >= 0 && s.d.hi(va.lin) <= 1);
			bool boolB = w == 1 || vb.k == Val::BOOL || (vb.k == Val::INT && s.d.lo(vb.lin) >= 0 && s.d.hi(vb.lin) <= 1);
			if (boolA && boolB) {
				PredP p = asPred(s, in->getOperand(0)), q = asPred(s, in->getOperand(1));
				if (in->getOpcode() == Instruction::And) set(s, in, mk(s, mkBin(Pred::AND, p, q)));
				else if (in->getOpcode() == Instruction::Or) set(s, in, mk(s, mkBin(Pred::OR, p, q)));
				else {
					int e = evalPred(s, q);
					int e1 = evalPred(s, p);
					if (e == 1) set(s, in, mk(s, mkNot(p))); else if (e == 0) set(s, in, mk(s, p));
					else if (e1 == 1) set(s, in, mk(s, mkNot(q))); else if (e1 == 0) set(s, in, mk(s, q));
					else set(s, in, mk(s, mkBin(Pred::OR, mkBin(Pred::AND, p, mkNot(q)), mkBin(Pred::AND, mkNot(p), q))));
				}
				return;
			}
			Lin a = asInt(s, in->getOperand(0)), b = asInt(s, in->getOperand(1)), oa, ob;
			if (a.isConst() && b.isConst()) {
				uint64_t x = (uint64_t)a.c, y = (uint64_t)b.c, r = in->getOpcode() == Instruction::And ? x & y : in->getOpcode() == Instruction::Or ? x | y : x ^ y;
				if (w < 64) r &= (((uint64_t)1) << w) - 1;
				set(s, in, Val::mkInt(Lin((I)(w == 64 ? (I)(int64_t)r : (I)r))));
				return;
			}
			bool na = norm(s, a, w, false, oa), nb = norm(s, b, w, false, ob);
			if (in->getOpcode() == Instruction::And) {
				I hi = pw(w) - 1;
				if (na) hi = std::min(hi, s.d.hi(oa));
				if (nb) hi = std::min(hi, s.d.hi(ob));
				// mask 2^k-1 covering the value: identity
				if (nb && ob.isConst() && na && ((ob.c & (ob.c + 1)) == 0) && s.d.hi(oa) <= ob.c) { set(s, in, Val::mkInt(oa)); return; }
				// mask 2^k-1 over terms whose coefficients are multiples of 2^k: what is left, if it lies within the mask
				if (nb && ob.isConst() && na && ob.c >= 0 && ((ob.c & (ob.c + 1)) == 0)) {

					I m = ob.c + 1; Lin r, oa1 = oa;
					for (auto& t : oa.t) for (auto& e : s.d.eqs) if (e.first == t.first) oa1 = linAdd(linAdd(oa1, Lin::sym(t.first), -t.second), e.second, t.second);
					r.c = ((oa1.c % m) + m) % m;
					for (auto& t : oa1.t) if (t.second % m != 0) r.t.push_back(t);
					if (s.d.lo(r) >= 0 && s.d.hi(r) <= ob.c) { set(s, in, Val::mkInt(r)); return; }
				}
				I low0 = 0;
				if (na && nb) { // bits that the ranges settle
					auto bits = [&](const Lin& x, uint64_t& ones, uint64_t& may) {
						uint64_t l = (uint64_t)s.d.lo(x), h = (uint64_t)s.d.hi(x), d = l ^ h, open = 0;
						while (d) { open = (open << 1) | 1; d >>= 1; }
						ones = l & ~open; may = h | open;
					};
					uint64_t o1, m1, o2, m2; bits(oa, o1, m1); bits(ob, o2, m2);
					if ((o1 & o2) == (m1 & m2)) { set(s, in, Val::mkInt(Lin((I)(o1 & o2)))); return; }
					low0 = (I)(o1 & o2); hi = std::min(hi, (I)(m1 & m2));
				}
				Pin pin(pins, {&oa, &ob}); int id = freshSym(s, 'F', in, "and"); bound(s, id, low0, hi);
				if (na) s.d.assumeLe0(linSub(Lin::sym(id), oa));
				if (nb) s.d.assumeLe0(linSub(Lin::sym(id), ob));
				// mask that drops only the bits below 2^k
				if (nb && ob.isConst() && na) { I low = pw(w) - 1 - ob.c; if (low >= 0 && (low & (low + 1)) == 0 && low < pw(32)) s.d.assumeLe0(linSub(linAdd(oa, Lin(-low)), Lin::sym(id))); }
				set(s, in, Val::mkInt(Lin::sym(id)));
				return;
			}
			if (na && nb) {
				// no bit in common: a sum
				for (int sw = 0; sw < 2; sw++) {
					const Lin& x = sw ? ob : oa; const Lin& y = sw ? oa : ob;
					I h = s.d.hi(y), k = 1;
					if (s.d.lo(y) < 0 || h >= pw(w - 1)) continue;
					while (k <= h) k <<= 1;
					bool mul = x.c % k == 0; for (auto& t : x.t) if (t.second % k != 0) mul = false;
					if (mul) { set(s, in, Val::mkInt(linAdd(oa, ob))); return; }
				}
				I h = std::max(s.d.hi(oa), s.d.hi(ob)), m = 1;
				while (m <= h) m <<= 1;
				Pin pin(pins, {&oa, &ob}); int id = freshSym(s, 'F', in, "or"); bound(s, id, 0, m - 1);
				if (in->getOpcode() == Instruction::Or) { s.d.assumeLe0(linSub(oa, Lin::sym(id))); s.d.assumeLe0(linSub(ob, Lin::sym(id))); }
				set(s, in, Val::mkInt(Lin::sym(id)));
				return;
			}
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::ExtractValue: {
			auto* ev = cast<ExtractValueInst>(in);
			Val v = get(s, ev->getAggregateOperand());
			for (unsigned i : ev->indices()) { if (v.k != Val::AGG || i >= v.agg.size()) { v = Val(); break; } Val t = v.agg[i]; v = t; }
			if (v.k == Val::NONE) v = freshOf(s, in, in->getType());
			set(s, in, v);
			return;
		}
		case Instruction::InsertValue: {
			auto* iv = cast<InsertValueInst>(in);
			Val v = get(s, iv->getAggregateOperand());
			if (v.k == Val::AGG && iv->getNumIndices() == 1 && iv->getIndices()[0] < v.agg.size()) { v.agg[iv->getIndices()[0]] = get(s, iv->getInsertedValueOperand()); set(s, in, v); return; }
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::LandingPad: landingpad(cast<LandingPadInst>(in), s); return;
		case Instruction::Call: { bool thr = false; call(cast<CallBase>(in), s, thr); return; }
		case Instruction::AtomicRMW: {
			auto* a = cast<AtomicRMWInst>(in);
			Val p = asPtr(s, a->getPointerOperand());
			unsigned sz = (unsigned)DL.getTypeStoreSize(a->getType()).getFixedValue();
			Val old = loadVal(s, in, p, a->getType());
			set(s, in, old);
			Lin nv; bool ok = false;
			if (old.k == Val::INT && (a->getOperation() == AtomicRMWInst::Add || a->getOperation() == AtomicRMWInst::Sub)) { Lin x = asInt(s, a->getValOperand()); nv = a->getOperation() == AtomicRMWInst::Add ? linAdd(old.lin, x) : linSub(old.lin, x); ok = true; }
			storeVal(s, p, ok ? Val::mkInt(nv) : a->getOperation() == AtomicRMWInst::Xchg ? get(s, a->getValOperand()) : Val(), sz);
			return;
		}
		case Instruction::AtomicCmpXchg: {
			auto* a = cast<AtomicCmpXchgInst>(in);
			Val p = asPtr(s, a->getPointerOperand());
			unsigned sz = (unsigned)DL.getTypeStoreSize(a->getNewValOperand()->getType()).getFixedValue();
			storeVal(s, p, Val(), sz);
			set(s, in, freshOf(s, in, in->getType()));
			return;
		}
		case Instruction::Fence: return;
		default:
			if (!in->getType()->isVoidTy()) set(s, in, freshOf(s, in, in->getType()));
			return;
		}
	}
	Val mk(State& s, const PredP& p) { int e = evalPred(s, p); if (e >= 0) return Val::mkInt(Lin((I)e)); return Val::mkBool(p); }
	Val icmp(State& s, const ICmpInst* c) {
		const Value *x = c->getOperand(0), *y = c->getOperand(1);
		if (x->getType()->isPointerTy()) {
			Val p = asPtr(s, x), q = asPtr(s, y);
			Lin a, b;
			if (p.base == q.base) { a = p.lin; b = q.lin; }
			else if (q.isNull()) {
				if (rootedNonNull(p.base)) return Val::mkInt(Lin((I)(c->getPredicate() == CmpInst::ICMP_NE || c->getPredicate() == CmpInst::ICMP_UGT || c->getPredicate() == CmpInst::ICMP_UGE)));
				a = p.base ? Lin::sym(p.base) : p.lin; b = Lin(); s.d.add(p.base); bound(s, p.base, 0, pw(64) - 1);
			} else if (p.isNull()) {
				if (rootedNonNull(q.base)) return Val::mkInt(Lin((I)(c->getPredicate() == CmpInst::ICMP_NE || c->getPredicate() == CmpInst::ICMP_ULT || c->getPredicate() == CmpInst::ICMP_ULE)));
				b = q.base ? Lin::sym(q.base) : q.lin; a = Lin(); bound(s, q.base, 0, pw(64) - 1);
			} else {
				if (p.base && q.base && rootedNonNull(p.base) && rootedNonNull(q.base) && c->isEquality()) return Val::mkInt(Lin((I)(c->getPredicate() == CmpInst::ICMP_NE)));
				auto top = [](const Val& v) { return v.base == 0 && v.lin.isConst() && ((v.lin.c < 0 && v.lin.c >= -4096) || v.lin.c >= pw(64) - 4096); }; // no object is at the last page, like MAP_FAILED
				if (c->isEquality() && ((rootedNonNull(p.base) && top(q)) || (rootedNonNull(q.base) && top(p)))) return Val::mkInt(Lin((I)(c->getPredicate() == CmpInst::ICMP_NE)));
				a = p.addr(); b = q.addr();
				for (int k : {p.base, q.base}) if (k) bound(s, k, rootedNonNull(k) ? 1 : 0, pw(64) - 1);
			}
			return mk(s, mkCmp(c->getPredicate(), 64, a, b));
		}
		if (!x->getType()->isIntegerTy() || x->getType()->getIntegerBitWidth() > 64) return freshOf(s, c, c->getType());
		Val a = get(s, x), b = get(s, y);
		unsigned w = width(x->getType());
		if (c->isEquality() && (a.k == Val::BOOL || b.k == Val::BOOL)) {
			if (a.k != Val::BOOL) std::swap(a, b);
			PredP q;
			if (b.isConstInt()) {
				bool one = b.lin.c != 0, eq = c->getPredicate() == CmpInst::ICMP_EQ;
				if (b.lin.c == 0 || b.lin.c == 1) return mk(s, one == eq ? a.p : mkNot(a.p));
			} else {
				q = b.k == Val::BOOL ? b.p : mkCmp(CmpInst::ICMP_NE, 8, b.lin, Lin());
				PredP e = mkBin(Pred::OR, mkBin(Pred::AND, a.p, q), mkBin(Pred::AND, mkNot(a.p), mkNot(q)));
				return mk(s, c->getPredicate() == CmpInst::ICMP_EQ ? e : mkNot(e));
			}
		}
		return mk(s, mkCmp(c->getPredicate(), w, asInt(s, x), asInt(s, y)));
	}

	// ---- exceptions
	static std::map<const Value*, int>& typeIds() { static std::map<const Value*, int> m; return m; }
	static int typeId(const Value* ti) { auto& m = typeIds(); auto it = m.find(ti); if (it != m.end()) return it->second; int k = 1000 + (int)m.size(); m[ti] = k; return k; }
	// 1 derives, 0 does not, -1 unknown
	static int derives(const Value* t, const Value* want, int depth = 0) {
		if (t == want) return 1;
		if (depth > 12) return -1;
		auto* g = dyn_cast<GlobalVariable>(t);
		if (!g) return -1;
		if (!g->hasInitializer()) {
			static const std::map<std::string, std::string> base = {
				{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
				{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
				{"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9exception", ""}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt12future_error", "_ZTISt11logic_error"}};
			std::string n = g->getName().str();
			while (true) {
				auto it = base.find(n);
				if (it == base.end()) return -1;
				n = it->second;
				if (n.empty()) return 0;
				if (want->getName() == n) return 1;
			}
		}
		auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
		if (!cs) return -1;
		if (cs->getNumOperands() == 2) return 0; // no base
		if (cs->getNumOperands() == 3) return derives(cs->getOperand(2)->stripPointerCasts(), want, depth + 1);
		int r = 0;
		for (unsigned i = 4; i < cs->getNumOperands(); i += 2) { int d = derives(cs->getOperand(i)->stripPointerCasts(), want, depth + 1); if (d == 1) return 1; if (d < 0) r = -1; }
		return r;
	}
	void landingpad(const LandingPadInst* lp, State& s) {
		Val v; v.k = Val::AGG;
		v.agg.push_back(freshOf(s, lp, PointerType::get(lp->getContext(), 0), "exc"));
		bound(s, v.agg[0].base, 1, pw(64) - 1);
		Val sel;
		bool decided = false, unknown = s.exc == nullptr;
		for (unsigned i = 0; i < lp->getNumClauses() && !decided; i++) {
			if (!lp->isCatch(i)) { unknown = true; continue; }
			const Value* t = lp->getClause(i)->stripPointerCasts();
			if (isa<ConstantPointerNull>(t)) { sel = unknown ? Val() : Val::mkInt(Lin((I)999)); decided = true; break; }
			if (unknown) continue;
			int d = derives(s.exc, t);
			if (d == 1) { sel = Val::mkInt(Lin((I)typeId(t))); decided = true; }
			else if (d < 0) unknown = true;
		}
		if (!decided && !unknown) {
			if (!lp->isCleanup()) { s.d.bottom = true; return; } // propagates out of the entry
			sel = Val::mkInt(Lin());
		}
		if (sel.k == Val::NONE) sel = freshInt(s, lp, "sel", 0, 32, false);
		v.agg.push_back(sel);
		set(s, lp, v);
	}

	// ---- calls
	// returns through thr whether the call certainly throws
	static int64_t stdClassSize(StringRef n) {
		// non-virtual part of a std stream class written by its own members
		if (n.starts_with("_ZNSi")) return 16;
		if (n.starts_with("_ZNSo") || n.starts_with("_ZStls")) return 8;
		if (n.starts_with("_ZNSt9basic_ios")) return 264;
		if (n.starts_with("_ZNSt8ios_base")) return 216;
		if (n.starts_with("_ZNSt15basic_streambuf")) return 64;
		return -1;
	}
	bool pureName(StringRef n) {
		static const std::set<std::string> p = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr", "isalpha", "isdigit", "tolower", "toupper", "close", "ntohs", "htons", "htonl", "ntohl", "abs"};
		return p.count(n.str()) > 0;
	}
	struct Acc { int ptr, len; const char* what; };
	std::map<int, std::pair<int64_t, int64_t>> wrote; // argument -> range of offsets written
	void knownAccesses(State& s, const CallBase* c, StringRef n) {
		wrote.clear();
		static const std::map<std::string, std::vector<Acc>> T = {
			{"memcpy", {{0, 2, "write"}, {1, 2, "read"}}}, {"memmove", {{0, 2, "write"}, {1, 2, "read"}}}, {"memset", {{0, 2, "write"}}},
			{"memcmp", {{0, 2, "read"}, {1, 2, "read"}}},
			{"snprintf", {{0, 1, "write"}}}, {"vsnprintf", {{0, 1, "write"}}}, {"strncpy", {{0, 2, "write"}}}, {"strftime", {{0, 1, "write"}}},
			{"recv", {{1, 2, "write"}}}, {"recvfrom", {{1, 2, "write"}}}, {"send", {{1, 2, "read"}}}, {"sendto", {{1, 2, "read"}}}, {"read", {{1, 2, "write"}}}, {"write", {{1, 2, "read"}}},
			{"SSL_read", {{1, 2, "write"}}}, {"SSL_write", {{1, 2, "read"}}},
			{"_ZNSi4readEPcl", {{1, 2, "write"}}}, {"_ZNSo5writeEPKcl", {{1, 2, "read"}}}, {"_ZNSi7getlineEPcl", {{1, 2, "write"}}}, {"_ZNSi3getEPcl", {{1, 2, "write"}}},
		};
		auto it = T.find(n.str());
		if (it != T.end()) for (auto& a : it->second) if ((unsigned)a.len < c->arg_size()) {
			Val p = asPtr(s, c->getArgOperand(a.ptr));
			Lin l = asInt(s, c->getArgOperand(a.len)), o;
			unsigned w = width(c->getArgOperand(a.len)->getType());
			bool sg = n.starts_with("_ZN") || n == "SSL_read" || n == "SSL_write";
			if (norm(s, l, w, sg, o)) l = o; else l = freshInt(s, c, "len" + std::to_string(a.ptr), 0, w, sg).lin;
			checkAccess(s, c, p, l, a.what);
			if (s.dead()) return;
			if (std::string(a.what) == "write" && p.base) wrote[a.ptr] = {clampOff(s.d.lo(p.lin)), clampOff(s.d.hi(linAdd(p.lin, l)))};
		}
		if (n == "strcpy" || n == "strcat" || n == "sprintf" || n == "vsprintf") {
			Val p = asPtr(s, c->getArgOperand(0));
			Lin len; bool have = false;
			if (n == "strcpy") have = strLen(s, c->getArgOperand(1), len);
			if (!have) { int id = freshSym(s, 'F', c, "cpylen"); bound(s, id, 0, pw(63)); len = Lin::sym(id); }
			checkAccess(s, c, p, linAdd(len, Lin((I)1)), n.str().c_str());
		}
	}
	bool strLen(State& s, const Value* v, Lin& out) {
		StringRef str;
		if (getConstantStringInfo(v, str)) { out = Lin((I)str.size()); return true; }
		Val p = asPtr(s, v); I off;
		for (auto& x : s.slen) if (x.first.base == p.base && x.first.lin == p.lin) { out = x.second; return true; }
		if (p.k == Val::PTR && p.base && constOf(s, p.lin, off) && syms.info[p.base].kind == 'G')
			if (auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[p.base].p)) if (gv->isConstant() && gv->hasDefinitiveInitializer()) {
				if (isa<ConstantAggregateZero>(gv->getInitializer()) && off == 0) { out = Lin((I)0); return true; }
				if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) if (ca->isString() && off >= 0 && (uint64_t)off < ca->getNumElements()) {
					StringRef t = ca->getAsString().substr((size_t)off); size_t z = t.find('\0');
					if (z != StringRef::npos) { out = Lin((I)z); return true; }
				}
			}
		return false;
	}
	bool nothrowName(StringRef n) {
		static const std::set<std::string> p = {"open", "close", "lseek", "mmap", "munmap", "msync", "ioctl", "socket", "bind", "listen", "accept", "connect", "recv", "send", "recvfrom", "sendto", "getaddrinfo", "freeaddrinfo", "memcpy", "memmove", "memset", "read", "write", "poll", "shutdown", "getpid", "setsockopt", "time", "gmtime_r", "localtime_r", "usleep", "strftime", "vsnprintf", "snprintf", "__errno_location", "ftruncate", "fsync", "fdatasync"};
		return p.count(n.str()) > 0 || n.starts_with("SSL_") || n.starts_with("ERR_") || n.starts_with("TLS_") || n.starts_with("OPENSSL_");
	}

	// a lower bound of the offset of some zero byte of a region
	bool zeroFrom(State& s, int r, int64_t& lo) {
		bool any = false;
		auto see = [&](I o) { int64_t v = clampOff(o); if (v > -BIG && (!any || v > lo)) { any = true; lo = v; } };
		for (auto& x : s.slen) if (x.first.base == r) see(s.d.lo(linAdd(x.first.lin, x.second)));
		for (auto& x : s.cells) { I v; if (x.first.first == r && x.second.sz == 1 && x.second.v.k == Val::INT && constOf(s, x.second.v.lin, v) && v == 0) see((I)x.first.second); }
		for (auto& x : s.sym) { I v; if (x.base == r && x.sz == 1 && x.v.k == Val::INT && constOf(s, x.v.lin, v) && v == 0) see(s.d.lo(x.off)); }
		for (auto& z : s.zero) if (z.r == r && z.hi > z.lo) see((I)(z.hi - 1));
		auto it = s.term.find(r); if (it != s.term.end()) see((I)it->second);
		return any;
	}
	// a known zero byte at or after p, inside its region
	bool terminated(State& s, const Val& p) {
		if (p.k != Val::PTR || !p.base) return false;
		auto within = [&](const Lin& at) { return !p.hasSub || evalPred(s, mkCmp(CmpInst::ICMP_SLT, 64, at, linAdd(p.subLo, p.subSz))) == 1; }; // a terminator of another member is none
		int64_t zl; if (!p.hasSub && zeroFrom(s, p.base, zl) && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, Lin((I)zl))) == 1) return true;
		if (p.hasSub && s.term.count(p.base) && s.termEnd.count(p.base) && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, Lin((I)s.term[p.base]))) == 1 && within(Lin((I)s.termEnd[p.base] - 1))) return true;
		for (auto& x : s.slen) if (x.first.base == p.base && evalPred(s, mkCmp(CmpInst::ICMP_SGE, 64, x.first.lin, p.lin)) == 1 && within(linAdd(x.first.lin, x.second))) return true;
		for (auto& x : s.slen) if (x.first.base == p.base && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, x.first.lin, p.lin)) == 1 && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, linAdd(x.first.lin, x.second))) == 1 && within(linAdd(x.first.lin, x.second))) return true;
		for (auto& x : s.cells) { I v; if (x.first.first == p.base && x.second.sz == 1 && x.second.v.k == Val::INT && constOf(s, x.second.v.lin, v) && v == 0 && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, Lin((I)x.first.second))) == 1 && within(Lin((I)x.first.second))) return true; }
		for (auto& x : s.sym) { I v; if (x.base == p.base && x.sz == 1 && x.v.k == Val::INT && constOf(s, x.v.lin, v) && v == 0 && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, x.off)) == 1 && within(x.off)) return true; }
		for (auto& z : s.zero) if (z.r == p.base && z.hi > z.lo && evalPred(s, mkCmp(CmpInst::ICMP_SLE, 64, p.lin, Lin((I)(z.hi - 1)))) == 1 && within(Lin((I)z.lo))) return true;
		return false;
	}
	// printf-like calls: the format is a constant, it matches the arguments, and strings are terminated
	void formatCheck(const CallBase* c, State& s, const Value* fmt, unsigned first) {
		if (!wantFormat || !checking || !inScope(c)) return;
		StringRef str;
		std::string text; bool have = false;
		Obl& o = obl(c, "format", "a format is constant and matches its arguments");
		o.reached = true; o.states++; o.trivial = false;
		auto bad = [&](const std::string& w) { o.ok = false; if (o.witness.empty()) o.witness = w + (have ? " in \"" + text + "\"" : ""); };
		if (getConstantStringInfo(fmt, str)) { text = str.str(); have = true; }
		else {
			Val p = asPtr(s, fmt); I off;
			if (p.k == Val::PTR && p.base && constOf(s, p.lin, off) && syms.info[p.base].kind == 'G')
				if (auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[p.base].p)) if (gv->isConstant() && gv->hasDefinitiveInitializer()) if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) if (ca->isString() && off >= 0 && (uint64_t)off < ca->getNumElements()) { text = ca->getAsString().substr((size_t)off).str().c_str(); have = true; }
			if (!have && c->arg_size() == first) { // no arguments: nothing but blanks and letters may be in it; it must be a local, terminated text
				if (p.k == Val::PTR && p.base && syms.info[p.base].kind == 'L' && terminated(s, p)) return;
				bad("the format " + valStr(s, p) + " is not a constant");
				return;
			}
			if (!have) { bad("the format is not a constant"); return; }
		}
		unsigned a = first;
		int precArg = -1; // argument that bounds the length of a text
		I prec = -1; // a constant that does
		auto take = [&](char kind, unsigned w, const std::string& sp) {
			if (a >= c->arg_size()) { bad("no argument for " + sp); return; }
			const Value* v = c->getArgOperand(a++);
			Type* t = v->getType();
			if (kind == 'i' && (!t->isIntegerTy() || t->getIntegerBitWidth() != w)) bad("argument of another type for " + sp);
			if (kind == 'f' && !t->isDoubleTy()) bad("argument of another type for " + sp);
			if (kind == 'p' && !t->isPointerTy()) bad("argument of another type for " + sp);
			if (kind == 's') {
				if (!t->isPointerTy()) { bad("argument of another type for " + sp); return; }
				Lin l; Val p = asPtr(s, v);
				if (prec >= 0) {
					if (prec == 0) return;
					if (p.k == Val::PTR && p.hasSub) { Lin rel = linSub(p.lin, p.subLo); if (s.d.lo(rel) >= 0 && s.d.hi(linSub(linAdd(rel, Lin(prec)), p.subSz)) <= 0) return; }
					auto it = p.k == Val::PTR && p.base ? s.rsize.find(p.base) : s.rsize.end();
					if (it != s.rsize.end() && s.d.lo(p.lin) >= 0 && s.d.hi(linSub(linAdd(p.lin, Lin(prec)), it->second)) <= 0) return;
				}
				if (precArg >= 0) { // reads at most that many characters
					const Value* pv = c->getArgOperand((unsigned)precArg);
					Lin n = asInt(s, pv), o;
					bool have32 = norm(s, n, 32, true, o);
					if (auto* tr = dyn_cast<TruncInst>(pv)) { n = asInt(s, tr->getOperand(0)); have32 = norm(s, n, 64, false, o); } // no text is longer than an int can say
					if (have32 && s.d.lo(o) >= 0) { // a negative one means no bound
						if (s.d.hi(o) <= 0) return;
						auto it = p.k == Val::PTR && p.base ? s.rsize.find(p.base) : s.rsize.end();
						if (it != s.rsize.end() && s.d.lo(p.lin) >= 0 && s.d.hi(linSub(linAdd(p.lin, o), it->second)) <= 0) return;
					}
				}
				if (strLen(s, v, l) || p.isNull() || terminated(s, p)) return;
				I off;
				if (p.k == Val::PTR && p.base && syms.info[p.base].kind == 'G' && constOf(s, p.lin, off))
					if (auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[p.base].p)) if (gv->isConstant() && gv->hasDefinitiveInitializer()) if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) if (ca->isString() && off >= 0 && (uint64_t)off < ca->getNumElements()) return;
				bad("text " + valStr(s, p) + " is not known to be terminated for " + sp + "; " + ghosts(s));
			}
		};
		for (size_t i = 0; i < text.size(); i++) {
			if (text[i] != '%') continue;
			size_t b = i++;
			while (i < text.size() && strchr("-+ #0", text[i])) i++;
			if (i < text.size() && text[i] == '*') { take('i', 32, "*"); i++; } else while (i < text.size() && isdigit((unsigned char)text[i])) i++;
			if (i < text.size() && text[i] == '.') { i++; if (i < text.size() && text[i] == '*') { precArg = (int)a; take('i', 32, "*"); i++; } else for (prec = 0; i < text.size() && isdigit((unsigned char)text[i]); i++) prec = std::min<I>(prec * 10 + (text[i] - '0'), 1 << 30); }
			unsigned w = 32;
			while (i < text.size() && strchr("hlzjtLq", text[i])) { if (strchr("lzjtq", text[i])) w = 64; i++; }
			if (i >= text.size()) { bad("a conversion is not complete"); break; }
			std::string sp = text.substr(b, i - b + 1);
			char k = text[i];
			if (k == '%') continue;
			if (strchr("diouxX", k)) take('i', w, sp);
			else if (k == 'c') take('i', 32, sp);
			else if (strchr("eEfFgGaA", k)) take('f', 0, sp);
			else if (k == 's') take('s', 0, sp);
			else if (k == 'p') take('p', 0, sp);
			else bad("unknown conversion " + sp);
			precArg = -1; prec = -1;
		}
		if (a < c->arg_size()) bad("more arguments than conversions");
	}
	enum { NORMAL = 0, THROWS_ALWAYS = 1, NORETURN = 2 };
	int call(const CallBase* c, State& s, bool& mayThrow) {
		mayThrow = false;
		const Function* f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
		if (!f) {
			if (checking) { R.unmodelled.insert("<indirect call> at " + locOf(c)); R.calls++; }
			// virtual or pointer call: may write anything that is not a plain local
			std::set<int> rs;
			for (auto& x : s.cells) if (!isGhostGlobal(x.first.first) && syms.info[x.first.first].kind != 'L') rs.insert(x.first.first);
			for (auto& z : s.zero) if (syms.info[z.r].kind != 'L') rs.insert(z.r);
			for (int r : rs) killRegion(s, r);
			for (auto& a : c->args()) if (a->getType()->isPointerTy()) { Val p = asPtr(s, a); clobberReach(s, p.base); }
			if (!c->getType()->isVoidTy()) set(s, c, freshOf(s, c, c->getType()));
			mayThrow = !c->doesNotThrow();
			return NORMAL;
		}
		StringRef n = f->getName();
		if (auto id = f->getIntrinsicID()) return intrinsic(c, s, id);
		if (n.starts_with("vf_")) return vfcall(c, s, n);
		if (n == "__cxa_throw") { s.exc = c->getArgOperand(1)->stripPointerCasts(); mayThrow = true; return THROWS_ALWAYS; }
		if (n == "_ZNSt11logic_errorC2EPKc" || n == "_ZNSt13runtime_errorC2EPKc" || n == "_ZNSt11logic_errorC1EPKc" || n == "_ZNSt13runtime_errorC1EPKc") { // memory is not exhausted
			Val p = asPtr(s, c->getArgOperand(0)); killRegion(s, p.base);
			return NORMAL;
		}
		if (n == "__cxa_rethrow") { mayThrow = true; return THROWS_ALWAYS; } // exc kept from the catch
		if (n == "_Unwind_Resume") return NORETURN;
		if (n == "__cxa_allocate_exception" || n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "realloc") {
			int r = freshSym(s, 'H', c, "heap");
			killRegion(s, r);
			bound(s, r, 1, pw(64) - 1);
			if (c->arg_size() == 1 && n != "__cxa_allocate_exception") { Lin l = asInt(s, c->getArgOperand(0)), o; if (norm(s, l, 64, false, o)) s.rsize[r] = o; }
			set(s, c, Val::mkPtr(r, Lin()));
			mayThrow = n[0] == '_' && n[1] == 'Z';
			return NORMAL;
		}
		if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { Val v = asPtr(s, c->getArgOperand(0)); set(s, c, v); return NORMAL; }
		if (n == "__cxa_end_catch" || n == "__cxa_free_exception" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "free") return NORMAL;
		if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "__cxa_pure_virtual" || n == "__assert_fail") {
			return NORETURN;
		}
		if (checking) { R.calls++; if (f->isDeclaration()) R.callsExternal++; }
		knownAccesses(s, c, n);
		if (s.dead()) return NORMAL;
		if (f->isVarArg() && f->getFunctionType()->getNumParams() > 0 && (n.contains("6vf_log") || n == "snprintf" || n == "sprintf" || n == "printf" || n == "fprintf" || n == "dprintf")) {
			unsigned k = f->getFunctionType()->getNumParams();
			formatCheck(c, s, c->getArgOperand(k - 1), k);
		}
		if (n.contains("6vf_log") && c->arg_size() > 0) {
			Val p = asPtr(s, c->getArgOperand(0));
			if (checking && inScope(c)) {
				bool ok = nonNull(s, p);
				Obl& o = obl(c, "nulllog", "the log is tested before it is used");
				o.reached = true; o.states++; o.trivial = false;
				if (!ok) { o.ok = false; if (o.witness.empty()) o.witness = "log " + valStr(s, p) + "; " + ghosts(s); }
			}
			if (p.base && !syms.info[p.base].rooted()) bound(s, p.base, 1, pw(64) - 1);
			if (!c->getType()->isVoidTy()) set(s, c, freshOf(s, c, c->getType()));
			return NORMAL;
		}
		if (n == "strlen") {
			Lin l;
			Val p = asPtr(s, c->getArgOperand(0));
			if (!strLen(s, c->getArgOperand(0), l)) {
				Pin pin(pins, {&p.lin}); int id = freshSym(s, 'F', c, "strlen"); bound(s, id, 0, pw(62));
				l = Lin::sym(id);
				s.slen.push_back({p, l});
			}
			set(s, c, Val::mkInt(l));
			return NORMAL;
		}
		if (n == "getaddrinfo" || n == "gmtime_r" || n == "localtime_r" || n == "clock_gettime") {}
		bool constMember = n.starts_with("_ZNK");
		bool pure = pureName(n) || f->onlyReadsMemory() || constMember;
		bool recursiveAbc = !f->isDeclaration();
		if (recursiveAbc) {
			std::set<int> rs;
			for (auto& x : s.cells) if (!isGhostGlobal(x.first.first) && syms.info[x.first.first].kind != 'L') rs.insert(x.first.first);
			for (int r : rs) killRegion(s, r);
			if (checking) R.unmodelled.insert("defined:" + shortFn(n.str()));
		} else if (checking && !pure) R.unmodelled.insert(n.str());
		if (!pure) {
			int64_t cls = stdClassSize(n);
			for (unsigned i = 0; i < c->arg_size(); i++) {
				const Value* a = c->getArgOperand(i);
				if (!a->getType()->isPointerTy()) continue;
				Val p = asPtr(s, a);
				if (p.k != Val::PTR || !p.base) continue;
				if (i == 0 && cls >= 0 && p.lin.isConst()) killRange(s, p.base, clampOff(p.lin.c), clampOff(p.lin.c) + cls);
				else if (wrote.count(i)) killRange(s, p.base, wrote[i].first, wrote[i].second);
				else if (writesNothing(n, i)) continue;
				else clobberReach(s, p.base);
			}
		}
		if ((n == "snprintf" || n == "vsnprintf") && c->arg_size() >= 2) { // the text is terminated if there is room for it
			Lin sz = asInt(s, c->getArgOperand(1)); Val d = asPtr(s, c->getArgOperand(0));
			if (d.base && evalPred(s, mkCmp(CmpInst::ICMP_UGE, 64, sz, Lin((I)1))) == 1) {
				Pin pin(pins, {&sz, &d.lin}); int id = freshSym(s, 'F', c, "fmtlen"); bound(s, id, 0, pw(62));
				assume(s, mkCmp(CmpInst::ICMP_ULT, 64, Lin::sym(id), sz), true);
				s.slen.push_back({d, Lin::sym(id)});
			}
		}
		if (n == "strncpy" || n == "strcpy") { // a constant text is copied as it is
			Val d = asPtr(s, c->getArgOperand(0)), q = asPtr(s, c->getArgOperand(1)); I off, cnt = 0, to;
			Lin len;
			if (d.base && constOf(s, d.lin, to) && q.k == Val::PTR && q.base && constOf(s, q.lin, off) && syms.info[q.base].kind == 'G' && strLen(s, c->getArgOperand(1), len) && len.isConst() && len.c < 64 && (n == "strcpy" || constOf(s, asInt(s, c->getArgOperand(2)), cnt)) && cnt <= 64) {
				if (n == "strcpy") cnt = len.c + 1;
				auto* gv = cast<GlobalVariable>((const Value*)syms.info[q.base].p);
				if (auto* ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) for (I i = 0; i < cnt; i++) s.cells[{d.base, clampOff(to + i)}] = Cell{Val::mkInt(Lin((I)(i < len.c ? (signed char)ca->getElementAsInteger((unsigned)(off + i)) : 0))), 1};
			}
		}
		if (n == "strncpy") { // a text with room for its terminator
			Val d = asPtr(s, c->getArgOperand(0)), q = asPtr(s, c->getArgOperand(1)); Lin cnt = asInt(s, c->getArgOperand(2)), l; I a, e;
			if (d.base && strLen(s, c->getArgOperand(1), l) && evalPred(s, mkCmp(CmpInst::ICMP_ULT, 64, l, cnt)) == 1) s.slen.push_back({d, l});
			else if (d.base && q.base && s.term.count(q.base) && s.termEnd.count(q.base) && constOf(s, q.lin, a) && constOf(s, linAdd(q.lin, cnt), e) && s.term[q.base] >= clampOff(a) && s.termEnd[q.base] <= clampOff(e)) {
				Pin pin(pins, {&cnt, &d.lin}); int id = freshSym(s, 'F', c, "text"); bound(s, id, 0, pw(62)); assume(s, mkCmp(CmpInst::ICMP_ULT, 64, Lin::sym(id), cnt), true); s.slen.push_back({d, Lin::sym(id)});
			}
		}
		if (n == "strcpy") { Lin l; if (strLen(s, c->getArgOperand(1), l)) s.slen.push_back({asPtr(s, c->getArgOperand(0)), l}); }
		if (!c->getType()->isVoidTy()) set(s, c, freshOf(s, c, c->getType()));
		if (c->getType()->isPointerTy() && c->hasRetAttr(Attribute::NonNull)) { Val v = get(s, c); if (v.base) bound(s, v.base, 1, pw(64) - 1); }
		if (c->getType()->isPointerTy() && c->getRetDereferenceableBytes() > 0) { Val v = get(s, c); if (v.base) bound(s, v.base, 1, pw(64) - 1); }
		mayThrow = !(c->doesNotThrow() || f->doesNotThrow() || nothrowName(n) || pure);
		if (f->doesNotReturn()) return NORETURN;
		return NORMAL;
	}
	bool writesNothing(StringRef n, unsigned i) { // const char* style parameters of known externals
		if (n == "snprintf" || n == "vsnprintf") return i != 0;
		if (n == "strcpy" || n == "strncpy" || n == "strcat" || n == "memcpy" || n == "memmove") return i != 0;
		if (n == "open" || n == "write" || n == "send" || n == "sendto" || n == "bind" || n == "connect" || n == "setsockopt" || n == "getenv") return true;
		if (n == "ioctl") return false;
		if (n.starts_with("_ZNSo5write") || n.starts_with("_ZStls")) return i != 0;
		if (n == "_ZNSt11logic_errorC2EPKc" || n == "_ZNSt13runtime_errorC2EPKc" || n == "_ZNSt11logic_errorC1EPKc" || n == "_ZNSt13runtime_errorC1EPKc") return i != 0;
		return false;
	}
	std::string strArg(const Value* v) { StringRef r; if (getConstantStringInfo(v, r)) return r.str(); return "?"; }
	int vfcall(const CallBase* c, State& s, StringRef n) {
		if (n == "vf_format") { formatCheck(c, s, c->getArgOperand(0), 1); return NORMAL; }
		if (n == "vf_assume") { assume(s, asPred(s, c->getArgOperand(0)), true); return NORMAL; }
		if (n == "vf_assert") {
			PredP p = asPred(s, c->getArgOperand(0));
			int e = evalPred(s, p);
			if (checking) {
				Obl& o = obl(c, "assert", strArg(c->getArgOperand(1)));
				o.reached = true; o.states++; o.trivial = false;
				if (e != 1 && o.ok && getenv("ABSINT_BAD")) { errs() << "BAD assert " << o.chain << "\n"; dumpState(s); }
				if (e != 1) { o.ok = false; if (o.witness.empty()) o.witness = std::string(e == 0 ? "definitely false" : "not provable") + "; " + predStr(s, p) + "; " + ghosts(s); }
			}
			assume(s, p, true);
			return NORMAL;
		}
		if (n == "vf_reach") { if (checking) R.reach[strArg(c->getArgOperand(0))]++; return NORMAL; }
		if (n == "vf_key") { Val p = asPtr(s, c->getArgOperand(0)); I o; if (p.base && constOf(s, p.lin, o)) keyCells.insert({p.base, (int64_t)o}); return NORMAL; }
		if (n == "vf_region") { Val p = asPtr(s, c->getArgOperand(0)); Lin l = asInt(s, c->getArgOperand(1)), o; if (p.base && norm(s, l, 64, false, o)) { s.d.assumeLe0(linSub(o, Lin((I)1 << 62))); s.rsize[p.base] = o; sized.insert(p.base); State::keepSize().insert(p.base); } return NORMAL; }
		if (n == "vf_cstring") { Val p = asPtr(s, c->getArgOperand(0)); Pin pin(pins, {&p.lin}); int id = freshSym(s, 'F', c, "cstr"); bound(s, id, 0, pw(62)); s.slen.push_back({p, Lin::sym(id)}); if (p.base && p.lin.isConst()) s.rsize[p.base] = linAdd(p.lin, linAdd(Lin::sym(id), Lin((I)1))); return NORMAL; }
		if (n == "vf_text") { Val p = asPtr(s, c->getArgOperand(0)); I o; if (p.base && constOf(s, p.lin, o)) { s.term[p.base] = clampOff(o); s.termEnd.erase(p.base); I e; auto z = s.rsize.find(p.base); if (p.hasSub ? constOf(s, linAdd(p.subLo, p.subSz), e) : z != s.rsize.end() && constOf(s, z->second, e)) s.termEnd[p.base] = clampOff(e); } else if (p.k == Val::PTR && p.base) { int id = freshSym(s, 'F', c, "text"); bound(s, id, 0, pw(62)); s.slen.push_back({p, Lin::sym(id)}); } return NORMAL; }
		if (n == "vf_is_text" || n == "vf_is_text_n") {
			if (!wantFormat || !checking) return NORMAL;
			Val p = asPtr(s, c->getArgOperand(0));
			if (n == "vf_is_text_n") { p.hasSub = true; p.subLo = p.lin; p.subSz = asInt(s, c->getArgOperand(1)); }
			Obl& o = obl(c, "text", strArg(c->getArgOperand(c->arg_size() - 1)));
			o.reached = true; o.states++; o.trivial = false;
			if (!terminated(s, p)) { o.ok = false; if (o.witness.empty()) o.witness = "text " + valStr(s, p) + "; " + ghosts(s); }
			return NORMAL;
		}
		if (n == "vf_havoc") { Val p = asPtr(s, c->getArgOperand(0)); clobberReach(s, p.base); return NORMAL; }
		if (n == "vf_stop") { s.d.bottom = true; return NORMAL; }
		if (n == "vf_dump") {
			if (checking || debugOn) {
				errs() << "DUMP " << strArg(c->getArgOperand(0)) << " at " << locOf(c) << " " << ghosts(s) << "\n";
				for (unsigned i = 1; i < c->arg_size(); i++) { Val v = get(s, c->getArgOperand(i)); errs() << "   arg" << i << " " << valStr(s, v) << "\n"; }
				dumpState(s);
			}
			return NORMAL;
		}
		// vf_nondet_*
		if (!c->getType()->isVoidTy()) set(s, c, freshOf(s, c, c->getType(), "nd"));
		return NORMAL;
	}
	std::string valStr(State& s, const Val& v) {
		if (v.k == Val::INT) return rangeStr(s, v.lin);
		if (v.k == Val::PTR) return "ptr " + symName(v.base) + "+" + rangeStr(s, v.lin) + (v.hasSub ? " sub[" + linStr(v.subLo) + "," + linStr(v.subSz) + "]" : "") + " addr>=" + i2s(s.d.loSym(v.base));
		if (v.k == Val::BOOL) return "bool " + predStr(s, v.p);
		return "?";
	}
	void dumpState(State& s) { for (auto& x : s.sym) errs() << "   symcell " << symName(x.base) << "+" << linStr(x.off) << ":" << x.sz << " = " << valStr(s, x.v) << "\n";
		for (auto& x : s.slen) errs() << "   text " << valStr(s, x.first) << " length " << rangeStr(s, x.second) << "\n";
		for (auto& x : s.cells) errs() << "   cell " << symName(x.first.first) << "+" << x.first.second << ":" << x.second.sz << " = " << valStr(s, x.second.v) << "\n";
		for (auto& e : s.d.eqs) errs() << "   def " << symName(e.first) << " = " << linStr(e.second) << "\n";
		if (getenv("ABSINT_ZONE")) for (size_t i = 0; i < s.d.n(); i++) for (size_t j = 0; j < s.d.n(); j++) if (i != j && s.d.at(i, j) < INF) errs() << "   " << symName(s.d.ids[i]) << " - " << symName(s.d.ids[j]) << " <= " << i2s(s.d.at(i, j)) << "\n";
	}
	std::string predStr(State& s, const PredP& p) {
		switch (p->op) {
		case Pred::NOT: return "!(" + predStr(s, p->x) + ")";
		case Pred::AND: return "(" + predStr(s, p->x) + " && " + predStr(s, p->y) + ")";
		case Pred::OR: return "(" + predStr(s, p->x) + " || " + predStr(s, p->y) + ")";
		default: break;
		}
		return "(" + rangeStr(s, p->a) + ") " + CmpInst::getPredicateName(p->cmp).str() + " (" + rangeStr(s, p->b) + ")";
	}
	int intrinsic(const CallBase* c, State& s, Intrinsic::ID id) {
		switch (id) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			Val d = pinned(s, asPtr(s, c->getArgOperand(0))), q = pinned(s, asPtr(s, c->getArgOperand(1)));
			Lin l = asInt(s, c->getArgOperand(2)), o;
			if (norm(s, l, 64, false, o)) l = o; else l = freshInt(s, c, "len", 0, 64, false).lin;
			checkAccess(s, c, d, l, "write");
			checkAccess(s, c, q, l, "read");
			if (s.dead()) return NORMAL;
			if (!d.base) return NORMAL;
			std::vector<std::pair<int64_t, Cell>> copy;
			std::vector<Range> zs;
			bool exact = d.lin.isConst() && q.lin.isConst() && l.isConst() && q.base;
			Constant* init = nullptr;
			std::pair<int64_t, int64_t> text{0, 0}; // where a text that is copied as a whole ends
			bool wholeText = false; // a text that is copied as a whole to a place that is not known exactly
			if (!exact && wantFormat && q.base && s.term.count(q.base) && s.termEnd.count(q.base)) { I a, e; if (constOf(s, q.lin, a) && constOf(s, linAdd(q.lin, l), e) && s.term[q.base] >= clampOff(a) && s.termEnd[q.base] <= clampOff(e)) wholeText = true; }
			if (exact && wantFormat && s.term.count(q.base) && s.termEnd.count(q.base)) { int64_t a = s.term[q.base], e = s.termEnd[q.base]; if (a >= clampOff(q.lin.c) && e <= clampOff(q.lin.c) + clampOff(l.c)) { int64_t by = clampOff(d.lin.c) - clampOff(q.lin.c); text = {a + by, e + by}; } }
			if (exact) {
				int64_t qo = clampOff(q.lin.c), n = clampOff(l.c), dd = clampOff(d.lin.c);
				for (auto& x : s.cells) if (x.first.first == q.base && x.first.second >= qo && x.first.second + (int64_t)x.second.sz <= qo + n) copy.push_back({x.first.second - qo + dd, x.second});
				for (auto& z : s.zero) if (z.r == q.base) { int64_t lo = std::max(z.lo, qo), hi = std::min(z.hi, qo + n); if (lo < hi) zs.push_back({d.base, lo - qo + dd, hi - qo + dd}); }
				if (syms.info[q.base].kind == 'G' && qo == 0) if (auto* gv = dyn_cast<GlobalVariable>((const Value*)syms.info[q.base].p)) if (gv->isConstant() && gv->hasDefinitiveInitializer()) init = const_cast<Constant*>(gv->getInitializer());
			}
			I lo = s.d.lo(d.lin), hi = s.d.hi(linAdd(d.lin, l));
			std::vector<SymCell> moved, apart;
			if (q.base) { // what is known about single places moves along
				Lin by = linSub(d.lin, q.lin), qe = linAdd(q.lin, l);
				for (auto& x : s.sym) if (x.base == q.base && s.d.lo(linSub(x.off, q.lin)) >= 0 && s.d.hi(linSub(linAdd(x.off, Lin((I)x.sz)), qe)) <= 0) moved.push_back({d.base, linAdd(x.off, by), x.sz, x.v});
				if (!exact && moved.empty()) for (auto& x : s.cells) if (x.first.first == q.base && (x.second.v.k == Val::INT || x.second.v.k == Val::PTR)) { Lin xo((I)x.first.second); if (s.d.lo(linSub(xo, q.lin)) >= 0 && s.d.hi(linSub(linAdd(xo, Lin((I)x.second.sz)), qe)) <= 0) moved.push_back({d.base, linAdd(xo, by), x.second.sz, x.second.v}); }
			}
			for (auto& x : s.sym) if (x.base == d.base && (s.d.lo(linSub(x.off, linAdd(d.lin, l))) >= 0 || s.d.hi(linSub(linAdd(x.off, Lin((I)x.sz)), d.lin)) <= 0)) apart.push_back(x);
			killRange(s, d.base, clampOff(lo), clampOff(hi));
			for (auto& x : apart) if (std::find(s.sym.begin(), s.sym.end(), x) == s.sym.end()) s.sym.push_back(x);
			if (moved.size() <= 4) for (auto& x : moved) {
				if (x.off.isConst()) { s.cells[{d.base, clampOff(x.off.c)}] = Cell{x.v, x.sz}; continue; }
				bool dup = false; for (auto& y : s.sym) if (y.base == x.base && y.off == x.off && y.sz == x.sz) { y.v = x.v; dup = true; }
				if (!dup && x.off.t.size() <= 5) { if (s.sym.size() >= 6) s.sym.erase(s.sym.begin()); s.sym.push_back(x); }
			}
			for (auto& x : copy) s.cells[{d.base, x.first}] = x.second;
			for (auto& z : zs) s.zero.insert(z);
			if (wholeText) { Pin pin(pins, {&l, &d.lin}); int id = freshSym(s, 'F', c, "text"); bound(s, id, 0, pw(62)); assume(s, mkCmp(CmpInst::ICMP_ULT, 64, Lin::sym(id), l), true); s.slen.push_back({d, Lin::sym(id)}); }
			if (text.first < text.second) { s.term[d.base] = text.first; s.termEnd[d.base] = text.second; }
			if (init) initFromConst(s, d.base, clampOff(d.lin.c), init);
			return NORMAL;
		}
		case Intrinsic::memset: {
			Val d = asPtr(s, c->getArgOperand(0));
			Lin l = asInt(s, c->getArgOperand(2)), o;
			if (norm(s, l, 64, false, o)) l = o; else l = freshInt(s, c, "len", 0, 64, false).lin;
			checkAccess(s, c, d, l, "write");
			if (s.dead() || !d.base) return NORMAL;
			I lo = s.d.lo(d.lin), hi = s.d.hi(linAdd(d.lin, l));
			killRange(s, d.base, clampOff(lo), clampOff(hi));
			Lin v = asInt(s, c->getArgOperand(1));
			if (d.lin.isConst() && l.isConst() && v.isConst() && v.c == 0) s.zero.insert({d.base, clampOff(d.lin.c), clampOff(d.lin.c + l.c)});
			return NORMAL;
		}
		case Intrinsic::eh_typeid_for: set(s, c, Val::mkInt(Lin((I)typeId(c->getArgOperand(0)->stripPointerCasts())))); return NORMAL;
		case Intrinsic::trap: return NORETURN;
		case Intrinsic::assume: assume(s, asPred(s, c->getArgOperand(0)), true); return NORMAL;
		case Intrinsic::expect: set(s, c, get(s, c->getArgOperand(0))); return NORMAL;
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: set(s, c, freshOf(s, c, c->getType())); return NORMAL;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: return NORMAL;
		default:
			if (!c->getType()->isVoidTy()) set(s, c, freshOf(s, c, c->getType()));
			return NORMAL;
		}
	}
	void terminator(const Instruction* t, State& s) {
		const BasicBlock* b = t->getParent();
		if (auto* br = dyn_cast<BranchInst>(t)) {
			if (br->isUnconditional()) { edge(std::move(s), b, br->getSuccessor(0)); return; }
			PredP p = asPred(s, br->getCondition());
			int e = evalPred(s, p);
			if (e != 1) { State s2 = s; assume(s2, p, false); edge(std::move(s2), b, br->getSuccessor(1)); }
			if (e != 0) { assume(s, p, true); edge(std::move(s), b, br->getSuccessor(0)); }
			return;
		}
		if (auto* sw = dyn_cast<SwitchInst>(t)) {
			Lin c = asInt(s, sw->getCondition());
			unsigned w = width(sw->getCondition()->getType());
			State def = s;
			for (auto& cs : sw->cases()) {
				Lin k((I)cs.getCaseValue()->getSExtValue());
				auto p = mkCmp(CmpInst::ICMP_EQ, w, c, k);
				int e = evalPred(s, p);
				if (e == 0) continue;
				State s2 = s; assume(s2, p, true); edge(std::move(s2), b, cs.getCaseSuccessor());
				assume(def, p, false);
				if (e == 1) def.d.bottom = true;
			}
			edge(std::move(def), b, sw->getDefaultDest());
			return;
		}
		if (auto* iv = dyn_cast<InvokeInst>(t)) {
			bool mayThrow = false;
			State before = s;
			int r = call(iv, s, mayThrow);
			if (s.dead()) return;
			if (mayThrow) {
				State u = s;
				if (r != THROWS_ALWAYS) u.exc = nullptr;
				u.vals.erase(iv);
				edge(std::move(u), b, iv->getUnwindDest());
			}
			if (r == NORMAL) edge(std::move(s), b, iv->getNormalDest());
			return;
		}
		if (isa<UnreachableInst>(t)) return;
		// ret, resume: exits of the entry
	}

	// ---- driver
	void computeLiveness() {
		std::map<const BasicBlock*, std::set<const Value*, VLess>> use, def;
		for (auto& b : F) {
			for (auto& in : b) {
				if (!isa<PHINode>(in)) for (auto& o : in.operands()) { const Value* v = o; if ((isa<Instruction>(v) || isa<Argument>(v)) && !def[&b].count(v)) use[&b].insert(v); }
				def[&b].insert(&in);
			}
		}
		bool ch = true;
		while (ch) {
			ch = false;
			for (auto it = rpoBlocks.rbegin(); it != rpoBlocks.rend(); ++it) {
				const BasicBlock* b = *it;
				std::set<const Value*, VLess> out;
				for (auto* sc : successors(b)) {
					for (auto* v : liveIn[sc]) out.insert(v);
					for (auto& phi : sc->phis()) { out.erase(&phi); }
					for (auto& phi : sc->phis()) { const Value* v = phi.getIncomingValueForBlock(b); if (isa<Instruction>(v) || isa<Argument>(v)) out.insert(v); }
				}
				std::set<const Value*, VLess> in = use[b];
				for (auto* v : out) if (!def[b].count(v)) in.insert(v);
				if (in != liveIn[b]) { liveIn[b] = in; ch = true; }
			}
		}
	}
	std::map<const BasicBlock*, Node> limit; // invariants of the previous round
	void ascend(const State& s) {
		checking = false; collect = nullptr; collectOnly = nullptr; work.clear();
		size_t start = R.iters;
		N[&F.getEntryBlock()].in["entry"] = s;
		work.insert({0, "entry"});
		while (!work.empty() && !R.failed) {
			auto w = *work.begin(); work.erase(work.begin());
			const BasicBlock* b = rpoBlocks[w.first];
			R.iters++;
			if (R.iters - start > maxIter) { R.failed = true; R.error = "iteration limit"; break; }
			auto it = N[b].in.find(w.second);
			if (it == N[b].in.end()) continue;
			runTree(b, it->second);
		}
		if (!R.failed) dropUnreached();
		// narrowing: two decreasing passes from the post-fixpoint
		for (int pass = 0; pass < 2 && !getenv("ABSINT_NONARROW") && !R.failed && !heads.empty(); pass++) { narrow(); if (!R.failed) dropUnreached(); }
		checking = true;
		std::map<const BasicBlock*, std::map<std::string, State>> sink;
		collect = &sink; 
		static BasicBlock* none = (BasicBlock*)1;
		collectOnly = none; // discard arrivals
		if (const char* kk = getenv("ABSINT_KEYGREP")) for (auto* b : rpoBlocks) if (nodes.count(b)) for (auto& x : N[b].in) if (x.first.find(kk) != std::string::npos) errs() << "KG " << b->getName() << " " << locOf(b->getFirstNonPHI()) << " " << chainOf(b->getFirstNonPHI()) << " " << x.first << "\n";
		if (getenv("ABSINT_KEYS")) { const BasicBlock* w = nullptr; for (auto* b : rpoBlocks) if (nodes.count(b) && (!w || N[b].in.size() > N[w].in.size())) w = b; if (w) { errs() << "KEYS of " << w->getName() << "\n"; for (auto& x : N[w].in) errs() << "  " << x.first << "\n"; for (auto* v : liveIn[w]) errs() << "  v" << ordinal[v] << " is " << *v << "\n"; } }
		for (auto* b : rpoBlocks) if (nodes.count(b)) for (auto& x : N[b].in) { R.states++; runTree(b, x.second); if (R.failed) break; }
		collect = nullptr; checking = false;
	}
	void run() {
		// RPO
		std::vector<const BasicBlock*> post; std::set<const BasicBlock*> seen;
		std::vector<std::pair<const BasicBlock*, unsigned>> st;
		st.push_back({&F.getEntryBlock(), 0}); seen.insert(&F.getEntryBlock());
		while (!st.empty()) {
			auto& x = st.back();
			const Instruction* t = x.first->getTerminator();
			if (x.second < t->getNumSuccessors()) { auto* n = t->getSuccessor(x.second++); if (seen.insert(n).second) st.push_back({n, 0}); }
			else { post.push_back(x.first); st.pop_back(); }
		}
		rpoBlocks.assign(post.rbegin(), post.rend());
		for (size_t i = 0; i < rpoBlocks.size(); i++) rpo[rpoBlocks[i]] = (int)i;
		SmallVector<std::pair<const BasicBlock*, const BasicBlock*>, 32> be;
		FindFunctionBackedges(F, be);
		for (auto& e : be) heads.insert(e.second);
		{
			std::map<const BasicBlock*, std::set<const BasicBlock*>> body;
			for (auto& e : be) { // natural loop: everything that reaches the back edge without passing the head
				auto& B = body[e.second]; B.insert(e.second);
				std::vector<const BasicBlock*> q{e.first};
				while (!q.empty()) { auto* x = q.back(); q.pop_back(); if (!B.insert(x).second) continue; for (auto* p : predecessors(x)) if (rpo.count(p)) q.push_back(p); }
			}
			for (auto& x : body) for (auto* h : rpoBlocks) if (h != x.first && heads.count(h) && x.second.count(h)) inner[x.first].push_back(h);
		}
		int ord = 0;
		gOrd.clear();
		{ int o = 1; for (auto& a : F.args()) gOrd[&a] = o++; for (auto* b : rpoBlocks) for (auto& in : *b) gOrd[&in] = o++; }
		for (auto& a : F.args()) ordinal[&a] = ord++;
		for (auto* b : rpoBlocks) for (auto& in : *b) ordinal[&in] = ord++;
		for (auto* b : rpoBlocks) {
			unsigned preds = 0;
			for (auto* p : predecessors(b)) if (rpo.count(p)) preds++;
			if (preds != 1 || b == &F.getEntryBlock() || heads.count(b)) nodes.insert(b);
		}
		for (auto* b : rpoBlocks) for (auto& in : *b) if (auto* c = dyn_cast<ICmpInst>(&in)) if (auto* k = dyn_cast<ConstantInt>(c->getOperand(1))) if (k->getBitWidth() <= 64) {
			int64_t v = k->getSExtValue();
			if (v > -4096 && v < 4096) for (int e : {-1, 0, 1}) { thUp.insert(v + e); thLo.insert(-(v + e)); }
		}
		for (auto* b : rpoBlocks) for (auto& in : *b) if (in.getOpcode() == Instruction::Sub) if (auto* k = dyn_cast<ConstantInt>(in.getOperand(0))) if (k->getBitWidth() <= 64) { int64_t v = k->getSExtValue(); if (v > -65536 && v < 65536) for (int e : {-3, -2, -1, 0, 1}) { thSum.insert(v + e); thSum.insert(-(v + e)); } }
		computeLiveness();
		R.blocks = rpoBlocks.size(); R.nodes = nodes.size();
		for (auto* b : rpoBlocks) R.insts += b->size();
		// entry state
		State s;
		for (auto& a : F.args()) {
			if (a.getType()->isPointerTy()) {
				int r = syms.get('A', &a);
				bound(s, r, (a.hasNonNullAttr() || a.getDereferenceableBytes() > 0) ? 1 : 0, pw(64) - 1);
				s.vals[&a] = Val::mkPtr(r, Lin());
				if (a.getDereferenceableBytes() > 0 && false) s.rsize[r] = Lin((I)a.getDereferenceableBytes());
			} else s.vals[&a] = freshOf(s, &a, a.getType(), "arg");
		}
		// ascending iteration, decreasing passes, check; while something is not proved, again, with the invariants
		// found so far as the limit of the widening
		for (int round = 0; round < 3 && !R.failed; round++) {
			if (round) {
				bool bad = false;
				for (auto& o : R.obls) if (!o.second.ok) bad = true;
				if (!bad) break;
				limit.swap(N); N.clear(); R.obls.clear(); R.reach.clear(); R.capped = false; R.states = 0; R.calls = R.callsExternal = 0; R.unmodelled.clear();
			}
			ascend(s);
		}
		collect = nullptr;
		for (auto* b : rpoBlocks) for (auto& in : *b) if (inScope(&in)) R.srcFns.insert(fnOf(&in) );
	}
	// partitions that only early, since superseded states led to feed nothing but themselves: keep what the entry reaches
	void dropUnreached() {
		std::set<std::pair<const BasicBlock*, std::string>> seen;
		std::vector<std::pair<const BasicBlock*, std::string>> q{{&F.getEntryBlock(), "entry"}};
		seen.insert(q[0]);
		bool complete = true;
		while (!q.empty() && !R.failed) {
			auto w = q.back(); q.pop_back();
			auto it = N[w.first].in.find(w.second);
			if (it == N[w.first].in.end()) { complete = false; break; }
			std::map<const BasicBlock*, std::map<std::string, State>> out;
			collect = &out; collectOnly = nullptr;
			State st = it->second;
			runTree(w.first, st);
			for (auto& x : out) for (auto& y : x.second) if (seen.insert({x.first, y.first}).second) q.push_back({x.first, y.first});
		}
		collect = nullptr;
		if (!complete) return;
		for (auto& n : N) for (auto it = n.second.in.begin(); it != n.second.in.end();) if (!seen.count({n.first, it->first})) it = n.second.in.erase(it); else ++it;
	}
	void narrow() {
		std::map<const BasicBlock*, std::map<std::string, State>> arr;
		// which node trees have an edge to an earlier-or-equal node (back edges): compute their arrivals first from the old states
		std::map<const BasicBlock*, std::map<std::string, State>> back;
		{
			collect = &back; collectOnly = nullptr;
			// only arrivals at heads matter
			for (auto* b : rpoBlocks) if (nodes.count(b)) for (auto& x : N[b].in) {
				curNode = b;
				runTreeFiltered(b, x.second, true);
			}
		}
		std::map<const BasicBlock*, Node> NN;
		for (auto* b : rpoBlocks) {
			if (!nodes.count(b)) continue;
			if (b == &F.getEntryBlock()) { NN[b].in = N[b].in; }
			else {
				auto& m = arr[b];
				if (heads.count(b)) {
					for (auto& x : back[b]) {
						auto it = m.find(x.first);
						if (it == m.end()) {
							m.emplace(x.first, x.second);
						} else it->second = join(it->second, x.second, b);
					}
				}
				NN[b].in = m;
			}
			collect = &arr; 
			for (auto& x : NN[b].in) { curNode = b; runTreeFiltered(b, x.second, false); if (R.failed) return; }
			arr.erase(b);
		}
		collect = nullptr;
		N.swap(NN);
	}
	const BasicBlock* curNode = nullptr;
	bool filterBack = false, filtering = false;
	void runTreeFiltered(const BasicBlock* b, const State& s, bool backOnly) {
		// arrivals at nodes with rpo <= source are back arrivals
		auto* saved = collect;
		std::map<const BasicBlock*, std::map<std::string, State>> tmp;
		collect = &tmp;
		runTree(b, s);
		collect = saved;
		for (auto& x : tmp) {
			bool isBack = rpo[x.first] <= rpo[b];
			if (isBack != backOnly) continue;
			auto& m = (*collect)[x.first];
			for (auto& y : x.second) {
				State t = y.second; // already pruned and aged
				std::string k = keyFor(t, x.first, m.size(), [&](const std::string& kk) { return m.count(kk) > 0; });
				auto it = m.find(k);
				if (it == m.end()) m.emplace(k, std::move(t));
				else { ageJoinSyms(t, x.first); it->second = join(it->second, t, x.first); }
			}
		}
	}
};

// ---------------------------------------------------------------- preparation of the module
struct ModelRule { std::string rx, target; };
// a call through a virtual table becomes a choice between the functions of the module's virtual tables in that slot
static bool devirtualise(Module& M) {
	bool any = false;
	unsigned kind = M.getContext().getMDKindID("vf.devirt");
	std::vector<CallBase*> work;
	for (auto& f : M) if (!f.isDeclaration()) for (auto& in : instructions(f)) if (auto* c = dyn_cast<CallBase>(&in)) if (c->isIndirectCall() && !c->getMetadata(kind)) work.push_back(c);
	for (auto* c : work) {
		auto* l = dyn_cast<LoadInst>(c->getCalledOperand());
		if (!l) continue;
		int64_t slot = 0;
		Value* p = l->getPointerOperand();
		if (auto* g = dyn_cast<GetElementPtrInst>(p)) {
			if (g->getNumIndices() != 1 || !isa<ConstantInt>(g->getOperand(1)) || !g->getSourceElementType()->isPointerTy()) continue;
			slot = cast<ConstantInt>(g->getOperand(1))->getSExtValue(); p = g->getPointerOperand();
		}
		auto* vt = dyn_cast<LoadInst>(p);
		if (!vt || slot < 0) continue;
		std::vector<Function*> cand;
		for (auto& g : M.globals()) {
			if (!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
			auto* cs = dyn_cast<ConstantStruct>(g.getInitializer());
			if (!cs) continue;
			for (unsigned i = 0; i < cs->getNumOperands(); i++) {
				auto* ca = dyn_cast<ConstantArray>(cs->getOperand(i));
				if (!ca || (uint64_t)slot + 2 >= ca->getNumOperands()) continue;
				auto* f = dyn_cast<Function>(ca->getOperand((unsigned)slot + 2)->stripPointerCasts());
				if (f && !f->isDeclaration() && f->getFunctionType() == c->getFunctionType() && std::find(cand.begin(), cand.end(), f) == cand.end()) cand.push_back(f);
			}
		}
		c->setMetadata(kind, MDNode::get(M.getContext(), {}));
		if (cand.empty() || cand.size() > 4) continue;
		for (auto* f : cand) {
			CallBase& d = promoteCallWithIfThenElse(*c, f);
			d.setMetadata(kind, nullptr);
		}
		any = true;
	}
	return any;
}
// A variadic function loses its variable arguments; each call checks its format first and passes the fixed ones.
static void lowerVariadic(Module& M) {
	std::vector<Function*> work;
	for (auto& f : M) if (!f.isDeclaration() && f.isVarArg() && !f.getName().starts_with("H_")) work.push_back(&f);
	if (work.empty()) return;
	auto& C = M.getContext();
	FunctionCallee fmt = M.getOrInsertFunction("vf_format", FunctionType::get(Type::getVoidTy(C), {PointerType::get(C, 0)}, true));
	if (auto* ff = dyn_cast<Function>(fmt.getCallee())) ff->setDoesNotThrow();
	for (auto* f : work) {
		auto* ft = f->getFunctionType();
		auto* nt = FunctionType::get(ft->getReturnType(), ft->params(), false);
		Function* nf = Function::Create(nt, GlobalValue::InternalLinkage, f->getName() + ".fixed", M);
		nf->setAttributes(f->getAttributes());
		if (f->hasPersonalityFn()) nf->setPersonalityFn(f->getPersonalityFn());
		nf->splice(nf->begin(), f);
		nf->setSubprogram(f->getSubprogram()); f->setSubprogram(nullptr);
		for (unsigned i = 0; i < f->arg_size(); i++) { f->getArg(i)->replaceAllUsesWith(nf->getArg(i)); nf->getArg(i)->takeName(f->getArg(i)); }
		f->setPersonalityFn(nullptr);
		std::vector<Instruction*> dead;
		for (auto& in : instructions(nf)) if (auto* ii = dyn_cast<IntrinsicInst>(&in)) if (ii->getIntrinsicID() == Intrinsic::vastart || ii->getIntrinsicID() == Intrinsic::vaend || ii->getIntrinsicID() == Intrinsic::vacopy) dead.push_back(ii);
		for (auto* d : dead) d->eraseFromParent();
		bool isFmt = !ft->params().empty() && ft->params().back()->isPointerTy();
		std::vector<CallBase*> calls;
		for (auto* u : f->users()) if (auto* c = dyn_cast<CallBase>(u)) if (c->getCalledOperand() == f) calls.push_back(c);
		for (auto* c : calls) {
			IRBuilder<> B(c);
			std::vector<Value*> fixed, all;
			for (unsigned i = 0; i < c->arg_size(); i++) { if (i < ft->getNumParams()) fixed.push_back(c->getArgOperand(i)); else all.push_back(c->getArgOperand(i)); }
			if (isFmt) { all.insert(all.begin(), fixed.back()); B.CreateCall(fmt, all)->setDebugLoc(c->getDebugLoc()); }
			CallBase* n;
			if (auto* iv = dyn_cast<InvokeInst>(c)) n = B.CreateInvoke(nf, iv->getNormalDest(), iv->getUnwindDest(), fixed);
			else n = B.CreateCall(nf, fixed);
			n->setDebugLoc(c->getDebugLoc());
			if (!c->getType()->isVoidTy()) c->replaceAllUsesWith(n);
			c->eraseFromParent();
		}
	}
}
// Functions that call each other in a circle: copies for a few rounds, then an obligation that it goes no deeper.
static void unrollRecursion(Module& M, int depth, std::vector<std::string>& notes) {
	std::map<Function*, std::set<Function*>> calls;
	for (auto& f : M) if (!f.isDeclaration()) for (auto& in : instructions(f)) if (auto* c = dyn_cast<CallBase>(&in)) if (auto* g = c->getCalledFunction()) if (!g->isDeclaration() && !g->getName().starts_with("H_")) calls[&f].insert(g);
	std::map<Function*, std::set<Function*>> reach;
	for (auto& p : calls) { std::vector<Function*> w(p.second.begin(), p.second.end()); auto& r = reach[p.first]; while (!w.empty()) { auto* g = w.back(); w.pop_back(); if (!r.insert(g).second) continue; for (auto* h : calls[g]) w.push_back(h); } }
	std::set<Function*> done;
	for (auto& p : reach) {
		if (!p.second.count(p.first) || done.count(p.first)) continue;
		std::vector<Function*> scc;
		for (auto* g : p.second) if (reach[g].count(p.first)) { scc.push_back(g); done.insert(g); }
		// only the function that closes the circle at the top restarts it: the one most are entered through
		std::map<Function*, Function*> next;
		FunctionCallee as = M.getOrInsertFunction("vf_assert", Type::getVoidTy(M.getContext()), Type::getInt1Ty(M.getContext()), PointerType::getUnqual(M.getContext()));
		FunctionCallee stop = M.getOrInsertFunction("vf_stop", Type::getVoidTy(M.getContext()));
		for (auto* g : scc) {
			auto* s = Function::Create(g->getFunctionType(), GlobalValue::InternalLinkage, g->getName() + ".deep", M);
			auto* b = BasicBlock::Create(M.getContext(), "entry", s);
			IRBuilder<> B(b);
			auto* txt = B.CreateGlobalStringPtr("[deep] functions that call each other go no deeper than was looked at");
			B.CreateCall(as, {ConstantInt::getFalse(M.getContext()), txt}); B.CreateCall(stop); B.CreateUnreachable();
			next[g] = s;
		}
		for (int d = depth; d >= 1; d--) {
			std::map<Function*, Function*> level;
			for (auto* g : scc) { ValueToValueMapTy vm; auto* c = CloneFunction(g, vm); c->setName(g->getName() + ".r" + std::to_string(d)); c->setComdat(nullptr); c->setLinkage(GlobalValue::InternalLinkage); level[g] = c; }
			// within a round calls stay in the round, except those back to where the circle was entered
			for (auto& l : level) for (auto& in : instructions(*l.second)) if (auto* c = dyn_cast<CallBase>(&in)) if (auto* g = c->getCalledFunction()) if (next.count(g)) c->setCalledFunction(next[g]);
			next = level;
		}
		for (auto* g : scc) for (auto& in : instructions(*g)) if (auto* c = dyn_cast<CallBase>(&in)) if (auto* h = c->getCalledFunction()) if (next.count(h)) c->setCalledFunction(next[h]);
		notes.push_back("recursion: " + demangle(p.first->getName().str()) + " and " + std::to_string(scc.size() - 1) + " more");
	}
}
static int optRecursion = 0;
static void prepare(Module& M, const std::vector<ModelRule>& rules, std::vector<std::string>& notes) {
	// models: a function whose name is vfm.NAME replaces NAME; rules map demangled names to vfr_* functions
	std::vector<std::pair<Function*, Function*>> rep;
	for (auto& f : M) {
		if (f.isDeclaration()) continue;
		if (f.getName().starts_with("vfm.")) {
			if (Function* t = M.getFunction(f.getName().substr(4))) { if (t->getFunctionType() != f.getFunctionType()) notes.push_back("model type differs: " + f.getName().str()); rep.push_back({t, &f}); }
		}
	}
	for (auto& r : rules) {
		Function* m = M.getFunction(r.target);
		if (!m) continue; // rule for another harness
		Regex rx(r.rx);
		int hits = 0;
		for (auto& f : M) {
			if (&f == m || f.getName().starts_with("vf")) continue;
			if (rx.match(demangle(f.getName().str()))) {
				rep.push_back({&f, m}); hits++;
			}
		}
		notes.push_back("rule " + r.rx + " -> " + r.target + ": " + std::to_string(hits));
	}
	for (auto& p : rep) { p.first->replaceAllUsesWith(p.second); if (!p.first->isDeclaration()) { p.first->deleteBody(); } }
	if (optRecursion) unrollRecursion(M, optRecursion, notes);
	lowerVariadic(M);
	for (auto& f : M) {
		if (f.isDeclaration()) continue;
		f.removeFnAttr(Attribute::NoInline);
		f.removeFnAttr(Attribute::OptimizeNone);
		if (f.getName().starts_with("H_")) { f.setLinkage(GlobalValue::ExternalLinkage); continue; }
		f.setComdat(nullptr);
		f.setLinkage(GlobalValue::InternalLinkage);
		if (f.hasFnAttribute("vf-opaque")) continue;
		f.addFnAttr(Attribute::AlwaysInline);
	}
	// harness entries keep everything they need; drop the rest early
	if (auto* g = M.getGlobalVariable("llvm.global_ctors")) g->eraseFromParent();
	if (auto* g = M.getGlobalVariable("llvm.used")) g->eraseFromParent();
	if (auto* g = M.getGlobalVariable("llvm.compiler.used")) g->eraseFromParent();
	PassBuilder PB;
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	MPM.addPass(GlobalDCEPass());
	MPM.run(M, MAM);
	// inline, promote locals, and inline again what became direct (function pointers passed as parameters)
	for (int round = 0; round < 6; round++) {
		bool dv = devirtualise(M);
		MAM.invalidate(M, PreservedAnalyses::none());
		ModulePassManager P2;
		P2.addPass(AlwaysInlinerPass(false));
		P2.addPass(GlobalDCEPass());
		FunctionPassManager FPM;
		FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
		P2.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
		P2.run(M, MAM);
		for (auto& f : M) if (!f.isDeclaration() && f.getName().starts_with("H_")) removeUnreachableBlocks(f);
		bool more = false;
		for (auto& f : M) if (f.getName().starts_with("H_")) for (auto& in : instructions(f)) if (auto* c = dyn_cast<CallBase>(&in)) if (auto* g = c->getCalledFunction()) if (!g->isDeclaration() && g->hasFnAttribute(Attribute::AlwaysInline)) more = true;
		MAM.invalidate(M, PreservedAnalyses::none());
		if (!more && !dv && round > 0) break;
	}
	{
		// one load for repeated reads of the same unchanged place
		ModulePassManager P2; FunctionPassManager FPM;
		FPM.addPass(EarlyCSEPass(true));
		P2.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
		P2.run(M, MAM);
		MAM.invalidate(M, PreservedAnalyses::none());
	}
	for (auto& f : M) {
		if (f.isDeclaration()) continue;
		bool ch = true;
		while (ch) { ch = false; for (auto& b : make_early_inc_range(f)) if (MergeBlockIntoPredecessor(&b)) ch = true; }
		removeUnreachableBlocks(f);
	}
}

int main(int argc, char** argv) {
	if (argc < 3) { errs() << "usage: absint MODULE.bc OUT.json [--src P] [--models FILE] [--entry NAME]\n"; return 2; }
	std::string only; std::vector<ModelRule> rules; bool dumpIR = false; int shard = 0, shards = 1;
	for (int i = 3; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--src" && i + 1 < argc) srcPrefix = argv[++i];
		else if (a == "--entry" && i + 1 < argc) only = argv[++i];
		else if (a == "--shard" && i + 2 < argc) { shard = atoi(argv[++i]); shards = atoi(argv[++i]); }
		else if (a == "--format") wantFormat = true;
		else if (a == "--consts") optConsts = true; // states are kept apart by constants that a variable is set to
		else if (a == "--sums") optSums = true; // sums keep their parts instead of getting a name
		else if (a == "--wide") { optWide = true; optCap = std::max(optCap, 400l); }
		else if (a == "--delay" && i + 1 < argc) optDelay = atoi(argv[++i]);
		else if (a == "--cap" && i + 1 < argc) optCap = atol(argv[++i]);
		else if (a == "--recursion" && i + 1 < argc) optRecursion = atoi(argv[++i]);
		else if (a == "--count" && i + 1 < argc) optCount = atol(argv[++i]);
		else if (a == "--iter" && i + 1 < argc) optIter = atol(argv[++i]);
		else if (a == "--ir") dumpIR = true;
		else if (a == "--models" && i + 1 < argc) {
			std::ifstream f(argv[++i]); std::string line;
			while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; size_t k = line.rfind("=>"); if (k == std::string::npos) continue; auto trim = [](std::string x) { size_t a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t"); return a == std::string::npos ? std::string() : x.substr(a, b - a + 1); }; rules.push_back({trim(line.substr(0, k)), trim(line.substr(k + 2))}); }
		}
	}
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("absint", errs()); return 2; }
	std::vector<std::string> notes;
	if (!only.empty()) for (auto& f : *M) if (f.getName().starts_with("H_") && f.getName() != only) f.deleteBody();
	{ int k = 0; for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("H_")) if (k++ % shards != shard) f.deleteBody(); }
	prepare(*M, rules, notes);
	if (dumpIR) M->print(outs(), nullptr);
	std::vector<EntryResult> res;
	for (auto& f : *M) {
		if (f.isDeclaration() || !f.getName().starts_with("H_")) continue;
		res.emplace_back();
		EntryResult& r = res.back();
		r.name = f.getName().str();
		Analysis A(f, r);
		A.run();
		if (debugOn) errs() << r.name << " blocks " << r.blocks << " nodes " << r.nodes << " states " << r.states << " iters " << r.iters << (r.failed ? " FAILED " + r.error : "") << "\n";
	}
	std::ofstream o(argv[2]);
	o << "{\"notes\":[";
	for (size_t i = 0; i < notes.size(); i++) o << (i ? "," : "") << "\"" << jesc(notes[i]) << "\"";
	o << "],\"entries\":[";
	bool f1 = true;
	for (auto& r : res) {
		o << (f1 ? "" : ",") << "\n{\"name\":\"" << r.name << "\",\"blocks\":" << r.blocks << ",\"nodes\":" << r.nodes << ",\"insts\":" << r.insts << ",\"states\":" << r.states << ",\"iters\":" << r.iters << ",\"calls\":" << r.calls << ",\"capped\":" << (r.capped ? "true" : "false") << ",\"failed\":" << (r.failed ? "true" : "false") << ",\"error\":\"" << r.error << "\"";
		f1 = false;
		o << ",\"reach\":{";
		bool f2 = true;
		for (auto& x : r.reach) { o << (f2 ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f2 = false; }
		o << "},\"functions\":[";
		f2 = true;
		for (auto& x : r.srcFns) { o << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; }
		o << "],\"unmodelled\":[";
		f2 = true;
		for (auto& x : r.unmodelled) { o << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; }
		o << "],\"obligations\":[";
		f2 = true;
		for (auto& x : r.obls) {
			auto& b = x.second;
			o << (f2 ? "" : ",") << "\n {\"kind\":\"" << b.kind << "\",\"msg\":\"" << jesc(b.msg) << "\",\"loc\":\"" << jesc(b.loc) << "\",\"fn\":\"" << jesc(b.fn) << "\",\"chain\":\"" << jesc(b.chain) << "\",\"ok\":" << (b.ok ? "true" : "false") << ",\"trivial\":" << (b.trivial ? "true" : "false") << ",\"states\":" << b.states << ",\"witness\":\"" << jesc(b.witness) << "\"}";
			f2 = false;
		}
		o << "]}";
	}
	o << "\n]}\n";
	return 0;
}
