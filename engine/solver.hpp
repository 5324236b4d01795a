// Path constraints and the decision procedure: exact finite-domain reasoning for constraints on one
// symbolic byte, Z3 for everything else and for all assertions.
#pragma once
#include "expr.hpp"
#include <z3++.h>
#include <chrono>
#include <stdexcept>
#include <fstream>
#include <iostream>
#include <algorithm>

enum Sat { UNSAT, SATISFIABLE, UNKNOWN };

struct PC {
	std::vector<Dom> dom;            // per symbolic byte
	std::vector<Expr*> cons;         // constraints on more than one byte
	u64 ent = 0;                     // bytes occurring in cons
};

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

class Solver {
	ExprPool& P;
	z3::context* ctx = 0; z3::solver* inc = 0;
	std::vector<z3::expr*> memoBV; std::vector<z3::expr*> memoB;
	std::unordered_map<u64, std::pair<u64, int> > cache;
	struct DomKey { unsigned b; Dom d; };
	std::vector<std::vector<std::pair<Dom, z3::expr*> > > domMemo;
public:
	u64 nZ3 = 0, nZ3assert = 0, nCacheHit = 0, nDomDecisions = 0, nCross = 0, nUnknown = 0, nSecond = 0, nDumped = 0; double z3time = 0;
	unsigned timeoutMs = 30000; unsigned crossEvery = 2000; std::string dumpDir; unsigned dumpEvery = 200; unsigned dumpMax = 40; int pid = 0;
	Solver(ExprPool& p) : P(p) {}
	z3::context& C() { if (!ctx) { ctx = new z3::context(); } return *ctx; }
	z3::expr bv(u64 v, unsigned w) { return C().bv_val((uint64_t)v, w); }
	z3::expr toB(Expr* e) {   // width 1
		if (memoB.size() <= e->id) memoB.resize(std::max<size_t>(e->id + 1, memoB.size() * 2), 0);
		if (memoB[e->id]) return *memoB[e->id];
		z3::expr r = C().bool_val(false);
		switch (e->op) {
			case CONST: r = C().bool_val(e->c != 0); break;
			case EQ: r = e->a->width == 1 ? (toB(e->a) == toB(e->b)) : (toV(e->a) == toV(e->b)); break;
			case ULT: r = z3::ult(toV(e->a), toV(e->b)); break;
			case ULE: r = z3::ule(toV(e->a), toV(e->b)); break;
			case SLT: r = z3::slt(toV(e->a), toV(e->b)); break;
			case SLE: r = z3::sle(toV(e->a), toV(e->b)); break;
			case AND: r = toB(e->a) && toB(e->b); break;
			case OR: r = toB(e->a) || toB(e->b); break;
			case XOR: if (e->b->op == CONST && e->b->c) r = !toB(e->a); else r = toB(e->a) != toB(e->b); break;
			case ITE: r = z3::ite(toB(e->a), toB(e->b), toB(e->d)); break;
			case LOOKUP: { Dom d = Dom::none(); for (int i = 0; i < 256; i++) if (e->lut[i] & 1) d.set(i); r = domExpr(e->c, d); break; }
			default: r = (toV(e) == bv(1, 1));
		}
		if (memoB.size() <= e->id) memoB.resize(e->id + 1, 0);
		memoB[e->id] = new z3::expr(r); return r;
	}
	z3::expr toV(Expr* e) {
		if (memoBV.size() <= e->id) memoBV.resize(std::max<size_t>(e->id + 1, memoBV.size() * 2), 0);
		if (memoBV[e->id]) return *memoBV[e->id];
		z3::expr r = bv(0, e->width);
		switch (e->op) {
			case CONST: r = bv(e->c, e->width); break;
			case UNDEFX: r = bv(0, e->width); break;
			case SYM: r = C().bv_const(("b" + std::to_string(e->c)).c_str(), 8); break;
			case ADD: r = toV(e->a) + toV(e->b); break; case SUB: r = toV(e->a) - toV(e->b); break; case MUL: r = toV(e->a) * toV(e->b); break;
			case UDIV: r = z3::udiv(toV(e->a), toV(e->b)); break; case SDIV: r = toV(e->a) / toV(e->b); break;
			case UREM: r = z3::urem(toV(e->a), toV(e->b)); break; case SREM: r = z3::srem(toV(e->a), toV(e->b)); break;
			case SHL: r = z3::shl(toV(e->a), toV(e->b)); break; case LSHR: r = z3::lshr(toV(e->a), toV(e->b)); break; case ASHR: r = z3::ashr(toV(e->a), toV(e->b)); break;
			case ZEXT: r = e->a->width == 1 ? z3::ite(toB(e->a), bv(1, e->width), bv(0, e->width)) : z3::zext(toV(e->a), e->width - e->a->width); break;
			case SEXT: r = e->a->width == 1 ? z3::ite(toB(e->a), bv(maskw(e->width), e->width), bv(0, e->width)) : z3::sext(toV(e->a), e->width - e->a->width); break;
			case EXTRACT: r = toV(e->a).extract(e->c + e->width - 1, e->c); break;
			case CONCAT: r = z3::concat(toV(e->a), toV(e->b)); break;
			case LOOKUP: {
				z3::expr b = toV(P.sym(e->c)); // segments of constant value or of slope 1
				std::vector<std::pair<int, z3::expr> > seg; int i = 0;
				while (i < 256) {
					int j = i; while (j + 1 < 256 && e->lut[j + 1] == e->lut[i]) j++;
					int k = i; while (k + 1 < 256 && e->lut[k + 1] == ((e->lut[k] + 1) & maskw(e->width))) k++;
					if (k > j) { z3::expr x = e->width > 8 ? z3::zext(b, e->width - 8) : e->width == 8 ? b : b.extract(e->width - 1, 0); seg.push_back({k, x + bv((e->lut[i] - i), e->width)}); i = k + 1; }
					else { seg.push_back({j, bv(e->lut[i], e->width)}); i = j + 1; }
				}
				r = seg.back().second; for (int q = (int)seg.size() - 2; q >= 0; q--) r = z3::ite(z3::ule(b, bv(seg[q].first, 8)), seg[q].second, r);
				break; }
			default:
				if (e->width == 1) { r = z3::ite(toB(e), bv(1, 1), bv(0, 1)); break; }
				switch (e->op) {
					case AND: r = toV(e->a) & toV(e->b); break; case OR: r = toV(e->a) | toV(e->b); break; case XOR: r = toV(e->a) ^ toV(e->b); break;
					case ITE: r = z3::ite(toB(e->a), toV(e->b), toV(e->d)); break;
					default: throw std::runtime_error("toV");
				}
		}
		if (memoBV.size() <= e->id) memoBV.resize(e->id + 1, 0);
		memoBV[e->id] = new z3::expr(r); return r;
	}
	z3::expr domExpr(unsigned b, const Dom& d) {
		if (domMemo.size() <= b) domMemo.resize(b + 1);
		for (auto& p : domMemo[b]) if (p.first == d) return *p.second;
		z3::expr x = toV(P.sym(b)); z3::expr r = C().bool_val(false); bool any = false;
		if (d == Dom::full()) r = C().bool_val(true);
		else for (int i = 0; i < 256;) {
			if (!d.has(i)) { i++; continue; }
			int j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
			z3::expr q = i == j ? (x == bv(i, 8)) : i == 0 ? z3::ule(x, bv(j, 8)) : j == 255 ? z3::uge(x, bv(i, 8)) : (z3::uge(x, bv(i, 8)) && z3::ule(x, bv(j, 8)));
			r = any ? (r || q) : q; any = true; i = j + 1;
		}
		domMemo[b].push_back({d, new z3::expr(r)}); return r;
	}
	// PC and cond satisfiable? only constraints connected with cond are considered (the rest is satisfiable by itself)
	Sat check(const PC& pc, Expr* cond, bool isAssert, u8* model = 0, bool full = false) {
		u64 m = cond ? cond->mask : 0; if (full) m = ~0ULL;
		std::vector<Expr*> cs; 
		if (full) cs = pc.cons; else {
			bool ch = true; std::vector<char> in(pc.cons.size(), 0);
			while (ch) { ch = false; for (size_t i = 0; i < pc.cons.size(); i++) if (!in[i] && (pc.cons[i]->mask & m)) { in[i] = 1; m |= pc.cons[i]->mask; cs.push_back(pc.cons[i]); ch = true; } }
		}
		std::vector<u32> ids; for (Expr* e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
		u64 h = 0x9E3779B97F4A7C15ULL, h2 = 0x1234567; auto mix = [&](u64 v) { h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 32; h2 = (h2 + v) * 0xc4ceb9fe1a85ec53ULL; h2 ^= h2 >> 29; };
		for (u32 i : ids) mix(i); mix(cond ? cond->id + 1 : 0);
		for (unsigned b = 0; b < pc.dom.size(); b++) if ((m >> b) & 1) { mix(b + 0x1000); for (int k = 0; k < 4; k++) mix(pc.dom[b].w[k]); }
		if (!model) { auto it = cache.find(h); if (it != cache.end() && it->second.first == h2) { nCacheHit++; return (Sat)it->second.second; } }
		if (getenv("SYMX_SHOW")) { std::cerr << (cond ? P.show(cond) : std::string("-")) << " | "; for (Expr* e : cs) std::cerr << P.show(e) << " ; "; std::cerr << "\n"; }
		double t0 = nowS();
		// first the core solver kept between the queries, with a short time limit, then a new solver with the complete strategy
		if (!inc) { inc = new z3::solver(C(), z3::solver::simple()); z3::params p(C()); p.set("timeout", 1000u); inc->set(p); }
		auto fill = [&](z3::solver& s) {
			for (unsigned b = 0; b < pc.dom.size(); b++) if (((m >> b) & 1) && !(pc.dom[b] == Dom::full())) s.add(domExpr(b, pc.dom[b]));
			for (Expr* e : cs) s.add(toB(e));
			if (cond) s.add(toB(cond)); };
		struct Pop { z3::solver* s; bool on; ~Pop() { if (on) s->pop(); } } pop = { inc, true };
		z3::solver s = *inc; s.push(); fill(s); z3::check_result r = s.check();
		if (r == z3::unknown) { s = z3::solver(C()); z3::params p(C()); p.set("timeout", timeoutMs); s.set(p); fill(s); r = s.check(); nSecond++; }
		z3time += nowS() - t0; nZ3++; if (isAssert) nZ3assert++;
		Sat res = r == z3::sat ? SATISFIABLE : r == z3::unsat ? UNSAT : UNKNOWN;
		if (res == UNKNOWN) nUnknown++;
		if (!dumpDir.empty() && nDumped < dumpMax && (nZ3 % dumpEvery) == 1) {
			std::ofstream f(dumpDir + "/q" + std::to_string(pid) + "_" + std::to_string(nDumped++) + (res == SATISFIABLE ? ".sat" : res == UNSAT ? ".unsat" : ".unknown") + ".smt2");
			f << "(set-logic QF_BV)\n" << s.to_smt2();
		}
		if (res == SATISFIABLE && model) {
			z3::model mo = s.get_model();
			for (unsigned b = 0; b < pc.dom.size(); b++) {
				int f = pc.dom[b].first(); 
				if ((m >> b) & 1) { z3::expr v = mo.eval(toV(P.sym(b)), false); if (v.is_numeral()) f = (int)v.get_numeral_uint64(); else { for (int k = 97; k < 123; k++) if (pc.dom[b].has(k)) { f = k; break; } } }
				else for (int k = 97; k < 123; k++) if (pc.dom[b].has(k)) { f = k; break; }
				model[b] = f < 0 ? 0 : f;
			}
		}
		if (!model) cache[h] = {h2, res};
		return res;
	}
};
