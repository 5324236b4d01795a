// Bit-vector expressions over symbolic bytes, hash-consed, with exact value tables for
// expressions that depend on one symbolic byte only.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

enum Op : u8 { SYM, CONST, UNDEFX, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, LOOKUP };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sgn(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct Dom {          // set of values of one symbolic byte
	u64 w[4];
	static Dom full() { Dom d; d.w[0] = d.w[1] = d.w[2] = d.w[3] = ~0ULL; return d; }
	static Dom none() { Dom d; d.w[0] = d.w[1] = d.w[2] = d.w[3] = 0; return d; }
	bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
	int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
	bool has(unsigned v) const { return (w[v >> 6] >> (v & 63)) & 1; }
	void set(unsigned v) { w[v >> 6] |= 1ULL << (v & 63); }
	Dom operator&(const Dom& o) const { Dom r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
	Dom andnot(const Dom& o) const { Dom r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & ~o.w[i]; return r; }
	bool operator==(const Dom& o) const { return !memcmp(w, o.w, sizeof w); }
	int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
	bool single() const { return count() == 1; }
};

struct Expr {
	Op op; u8 width; bool undef;
	u32 id;
	u64 mask;      // symbolic bytes it depends on
	u64 c;         // CONST value, SYM index, EXTRACT low bit
	Expr *a, *b, *d;
	u64* tab;      // lazily: value for each of the 256 values of the one byte (mask has one bit)
	u64* lut;      // LOOKUP: table of 256 values indexed by the byte 'c'
	bool unary() const { return mask && !(mask & (mask - 1)); }
	int byte() const { return __builtin_ctzll(mask); }
};

class ExprPool {
	struct Key { Op op; u8 w; u64 c; Expr *a, *b, *d; 
		bool operator==(const Key& o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
	struct KeyH { size_t operator()(const Key& k) const {
		u64 h = k.op * 0x9E3779B97F4A7C15ULL + k.w; h ^= k.c + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
		h = (h ^ (u64)k.a) * 0xff51afd7ed558ccdULL; h ^= h >> 32; h = (h ^ (u64)k.b) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29; h = (h ^ (u64)k.d) * 0xff51afd7ed558ccdULL; return h ^ (h >> 31); } };
	std::unordered_map<Key, Expr*, KeyH> tabl;
	std::unordered_map<u64, std::vector<Expr*> > luts;
	u32 nextid = 0;
	std::vector<char*> blocks; size_t used = 0;
	Expr* alloc() { if (blocks.empty() || used + sizeof(Expr) > (1u << 20)) { blocks.push_back((char*)malloc(1u << 20)); used = 0; } Expr* e = (Expr*)(blocks.back() + used); used += sizeof(Expr); memset((void*)e, 0, sizeof *e); e->id = nextid++; return e; }
public:
	std::vector<Expr*> syms;
	size_t size() const { return nextid; }
	Expr* intern(Op op, unsigned w, u64 c, Expr* a, Expr* b, Expr* d) {
		Key k{op, (u8)w, c, a, b, d};
		auto it = tabl.find(k); if (it != tabl.end()) return it->second;
		Expr* e = alloc(); e->op = op; e->width = w; e->c = c; e->a = a; e->b = b; e->d = d;
		e->mask = (a ? a->mask : 0) | (b ? b->mask : 0) | (d ? d->mask : 0);
		e->undef = (a && a->undef) || (b && b->undef) || (d && d->undef);
		if (op == SYM) e->mask = 1ULL << c;
		if (op == UNDEFX) e->undef = true;
		tabl.emplace(k, e); return e;
	}
	Expr* cst(u64 v, unsigned w) { return intern(CONST, w, v & maskw(w), 0, 0, 0); }
	Expr* undef(unsigned w) { return intern(UNDEFX, w, 0, 0, 0, 0); }
	Expr* sym(unsigned i) { while (syms.size() <= i) syms.push_back(intern(SYM, 8, syms.size(), 0, 0, 0)); return syms[i]; }
	static u64 evalOp(Op op, unsigned w, u64 c, u64 x, u64 y, u64 z, unsigned wa, unsigned wb) {
		switch (op) {
			case ADD: return (x + y) & maskw(w); case SUB: return (x - y) & maskw(w); case MUL: return (x * y) & maskw(w);
			case UDIV: return y ? (x / y) : maskw(w); case UREM: return y ? x % y : x;
			case SDIV: { i64 p = sgn(x, w), q = sgn(y, w); if (!q) return p < 0 ? 1 : maskw(w); if (q == -1) return (0 - (u64)p) & maskw(w); return (u64)(p / q) & maskw(w); }
			case SREM: { i64 p = sgn(x, w), q = sgn(y, w); if (!q) return x; if (q == -1) return 0; return (u64)(p % q) & maskw(w); }
			case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
			case SHL: return y >= w ? 0 : (x << y) & maskw(w); case LSHR: return y >= w ? 0 : x >> y;
			case ASHR: return (u64)(sgn(x, w) >> (y >= w ? w - 1 : y)) & maskw(w);
			case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
			case SLT: return sgn(x, wa) < sgn(y, wa); case SLE: return sgn(x, wa) <= sgn(y, wa);
			case ITE: return x ? y : z; case ZEXT: return x; case SEXT: return (u64)sgn(x, wa) & maskw(w);
			case EXTRACT: return (x >> c) & maskw(w); case CONCAT: return ((x << wb) | y) & maskw(w);
			default: abort();
		}
	}
	u64* table(Expr* e) {            // e->unary()
		if (e->tab) return e->tab;
		u64* t = (u64*)malloc(256 * sizeof(u64));
		if (e->op == SYM) { for (int i = 0; i < 256; i++) t[i] = i; }
		else if (e->op == LOOKUP) { memcpy(t, e->lut, 256 * sizeof(u64)); }
		else {
			u64 ca = 0, cb = 0, cd = 0; u64 *ta = 0, *tb = 0, *td = 0;
			if (e->a) { if (e->a->op == CONST || e->a->op == UNDEFX) ca = e->a->c; else ta = table(e->a); }
			if (e->b) { if (e->b->op == CONST || e->b->op == UNDEFX) cb = e->b->c; else tb = table(e->b); }
			if (e->d) { if (e->d->op == CONST || e->d->op == UNDEFX) cd = e->d->c; else td = table(e->d); }
			unsigned wa = e->a ? e->a->width : 0, wb = e->b ? e->b->width : 0;
			for (int i = 0; i < 256; i++) t[i] = evalOp(e->op, e->width, e->c, ta ? ta[i] : ca, tb ? tb[i] : cb, td ? td[i] : cd, wa, wb);
		}
		return e->tab = t;
	}
	u64 eval(Expr* e, const u8* m) {   // under a full assignment
		switch (e->op) {
			case CONST: return e->c; case UNDEFX: return 0; case SYM: return m[e->c]; case LOOKUP: return e->lut[m[e->c]];
			default: break;
		}
		if (e->unary() && e->tab) return e->tab[m[e->byte()]];
		if (e->op == ITE) return eval(e->a, m) ? eval(e->b, m) : eval(e->d, m);
		return evalOp(e->op, e->width, e->c, eval(e->a, m), e->b ? eval(e->b, m) : 0, 0, e->a->width, e->b ? e->b->width : 0);
	}
	Expr* lookup(unsigned byte, unsigned w, const u64* vals) {
		bool same = true; u64 h = byte * 1315423911u + w; for (int i = 0; i < 256; i++) { if (vals[i] != vals[0]) same = false; h = (h ^ vals[i]) * 0x100000001b3ULL; h ^= h >> 29; }
		if (same) return cst(vals[0], w);
		auto& v = luts[h];
		for (Expr* e : v) if (e->c == byte && e->width == w && !memcmp(e->lut, vals, 256 * sizeof(u64))) return e;
		Expr* e = alloc(); e->op = LOOKUP; e->width = w; e->c = byte; e->mask = 1ULL << byte; e->lut = (u64*)malloc(256 * sizeof(u64)); memcpy(e->lut, vals, 256 * sizeof(u64));
		v.push_back(e); return e;
	}
	std::string show(Expr* e, int depth = 0) {
		static const char* const nm[] = {"sym","const","undef","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","lookup"};
		if (!e) return "-"; if (e->op == CONST) return std::to_string(e->c); if (e->op == SYM || e->op == LOOKUP) return std::string(nm[e->op]) + std::to_string(e->c); if (depth > 12) return "...";
		std::string r = std::string("(") + nm[e->op] + ":" + std::to_string(e->width); for (Expr* k : {e->a, e->b, e->d}) if (k) r += " " + show(k, depth + 1); return r + (e->op == EXTRACT ? "@" + std::to_string(e->c) : "") + ")";
	}
	Expr* notx(Expr* e) { return mk(XOR, 1, e, cst(1, 1)); }
	// a + b or a | b where no bit can be set in both
	Expr* disjoint(unsigned w, Expr* a, Expr* b) {
		if (a->op == CONST) std::swap(a, b);
		if (b->op == CONST && a->op == ZEXT && !(b->c & maskw(a->a->width))) return mk(CONCAT, w, cst(b->c >> a->a->width, w - a->a->width), a->a);
		unsigned wa = a->op == ZEXT ? a->a->width : w, wb = b->op == ZEXT ? b->a->width : b->op == CONST ? (b->c ? 64 - __builtin_clzll(b->c) : 1) : w;
		for (int k = 0; k < 2; k++) {
			Expr* p = a->op == ZEXT ? a->a : a;
			if (p->op == CONCAT && p->b->op == CONST && p->b->c == 0 && wb <= p->b->width) {
				unsigned lw = p->b->width; Expr* lo = b->op == CONST ? cst(b->c, lw) : mk(ZEXT, lw, b->op == ZEXT ? b->a : b);
				return mk(ZEXT, w, mk(CONCAT, p->width, p->a, lo));
			}
			std::swap(a, b); std::swap(wa, wb); if (a->op == CONST) break;
		}
		return 0;
	}
	// e = rest + k (modulo 2^width); adds the constant to k, true if there is one
	bool splitConst(Expr* e, Expr*& rest, u64& k) {
		rest = e; unsigned w = e->width;
		if (e->op == ADD && e->b->op == CONST) { u64 c = e->b->c; Expr* r; splitConst(e->a, r, k); rest = r; k += c; return true; }
		if (e->op == CONCAT) {
			if (e->a->op == CONST) { rest = mk(ZEXT, w, e->b); k += e->a->c << e->b->width; return true; }
			Expr* r; u64 q = 0; if (!splitConst(e->a, r, q)) return false; rest = mk(CONCAT, w, r, e->b); k += q << e->b->width; return true;
		}
		if (e->op == ZEXT) { Expr* r; u64 q = 0; if (!leadConst(e->a, r, q)) return false; rest = mk(ZEXT, w, r); k += q; return true; }
		return false;
	}
	bool leadConst(Expr* e, Expr*& rest, u64& k) { // constant leading bits
		if (e->op != CONCAT) return false;
		if (e->a->op == CONST) { rest = mk(ZEXT, e->width, e->b); k = e->a->c << e->b->width; return true; }
		Expr* r; u64 q = 0; if (!leadConst(e->a, r, q)) return false; rest = mk(CONCAT, e->width, r, e->b); k = q << e->b->width; return true;
	}
	int topBit(Expr* e) { if (e->op == CONST) return (e->c >> (e->width - 1)) & 1; if (e->op == ZEXT) return 0; if (e->op == CONCAT) return topBit(e->a); return -1; }
	// bitwise operation with a constant as concatenation of the unchanged and the constant parts
	Expr* bitRuns(Op op, unsigned w, Expr* a, u64 k) {
		unsigned runs = 1; for (unsigned i = 1; i < w; i++) if (((k >> i) & 1) != ((k >> (i - 1)) & 1)) runs++;
		if (runs > 4) return 0;
		Expr* r = 0; unsigned i = 0;
		while (i < w) { unsigned j = i; while (j < w && ((k >> j) & 1) == ((k >> i) & 1)) j++; bool one = (k >> i) & 1; Expr* x = (op == AND) == one ? mk(EXTRACT, j - i, a, 0, 0, i) : cst(op == AND ? 0 : maskw(j - i), j - i); r = r ? mk(CONCAT, j, x, r) : x; i = j; }
		return r;
	}
	Expr* mk(Op op, unsigned w, Expr* a, Expr* b = 0, Expr* d = 0, u64 c = 0) {
		// constant folding
		bool allc = a && a->op == CONST && (!b || b->op == CONST) && (!d || d->op == CONST);
		if (allc) return cst(evalOp(op, w, c, a->c, b ? b->c : 0, d ? d->c : 0, a->width, b ? b->width : 0), w);
		switch (op) {
			case ADD: case MUL: case AND: case OR: case XOR: case EQ:
				if (a->op == CONST) std::swap(a, b);
				else if (b->op != CONST && a->id > b->id) std::swap(a, b);
				break;
			default: break;
		}
		bool bc = b && b->op == CONST;
		switch (op) {
			case ADD: if (bc && b->c == 0) return a; { Expr* q = disjoint(w, a, b); if (q) return q; } if (bc && a->op == ADD && a->b->op == CONST) return mk(ADD, w, a->a, cst(a->b->c + b->c, w));
				if (bc && a->op == CONCAT && !(b->c & maskw(a->b->width))) return mk(CONCAT, w, mk(ADD, a->a->width, a->a, cst(b->c >> a->b->width, a->a->width)), a->b);
				if (bc && a->op == ZEXT && a->a->op == CONCAT && !(b->c & maskw(a->a->b->width))) { unsigned k = a->a->b->width; return mk(CONCAT, w, mk(ADD, w - k, mk(ZEXT, w - k, a->a->a), cst(b->c >> k, w - k)), a->a->b); }
				if (!bc && a->mask != b->mask) { Expr *ra, *rb; u64 k = 0; if (splitConst(a, ra, k) | splitConst(b, rb, k)) { Expr* q = disjoint(w, ra, rb); if (q) return mk(ADD, w, q, cst(k, w)); } }
				break;
			case SUB: if (bc) return mk(ADD, w, a, cst(0 - b->c, w)); if (a == b) return cst(0, w); break;
			case MUL: if (bc && b->c == 1) return a; if (bc && b->c == 0) return b; break;
			case AND: if (bc) { if (b->c == 0) return b; if (b->c == maskw(w)) return a; } if (a == b) return a;
				if (bc && w > 1 && !a->unary()) { Expr* q = bitRuns(AND, w, a, b->c); if (q) return q; }
				if (bc && w > 1 && !(b->c & (b->c + 1))) { unsigned k = 64 - __builtin_clzll(b->c); return mk(ZEXT, w, mk(EXTRACT, k, a, 0, 0, 0)); }
				break;
			case OR: if (bc) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; } if (a == b) return a; if (w > 1) { Expr* q = disjoint(w, a, b); if (q) return q; } if (bc && w > 1 && !a->unary()) { Expr* q = bitRuns(OR, w, a, b->c); if (q) return q; } break;
			case XOR: if (bc && b->c == 0) return a; if (a == b) return cst(0, w);
				if (bc && a->op == XOR && a->b->op == CONST) return mk(XOR, w, a->a, cst(a->b->c ^ b->c, w));
				break;
			case SHL: case LSHR: case ASHR: if (bc && b->c == 0) return a;
				if (bc && op == SHL) { if (b->c >= w) return cst(0, w); return mk(CONCAT, w, mk(EXTRACT, w - b->c, a, 0, 0, 0), cst(0, b->c)); }
				if (bc && op == LSHR) { if (b->c >= w) return cst(0, w); return mk(ZEXT, w, mk(EXTRACT, w - b->c, a, 0, 0, b->c)); }
				break;
			case EQ: if (a == b) return cst(1, 1);
				if (bc) {
					if (a->width == 1) return b->c ? a : notx(a);
					if (a->op == ZEXT) { if (b->c > maskw(a->a->width)) return cst(0, 1); return mk(EQ, 1, a->a, cst(b->c, a->a->width)); }
					if (a->op == ADD && a->b->op == CONST) return mk(EQ, 1, a->a, cst(b->c - a->b->c, a->width));
					if (a->op == XOR && a->b->op == CONST) return mk(EQ, 1, a->a, cst(b->c ^ a->b->c, a->width));
					if (a->op == CONCAT) return mk(AND, 1, mk(EQ, 1, a->a, cst(b->c >> a->b->width, a->a->width)), mk(EQ, 1, a->b, cst(b->c & maskw(a->b->width), a->b->width)));
					if (a->op == ITE && a->b->op == CONST && a->d->op == CONST) {
						bool t = a->b->c == b->c, f = a->d->c == b->c;
						if (t && f) return cst(1, 1); if (t) return a->a; if (f) return notx(a->a); return cst(0, 1);
					}
				} else if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mk(EQ, 1, a->a, b->a);
				else if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mk(EQ, 1, a->a, b->a);
				else if (a->op == CONCAT && b->op == CONCAT && a->b->width == b->b->width) return mk(AND, 1, mk(EQ, 1, a->a, b->a), mk(EQ, 1, a->b, b->b));
				break;
			case ULT: if (a == b) return cst(0, 1); if (bc && b->c == 0) return cst(0, 1);
				if (bc && a->op == ZEXT) { if (b->c > maskw(a->a->width)) return cst(1, 1); return mk(ULT, 1, a->a, cst(b->c, a->a->width)); }
				if (bc && a->op == CONCAT) { unsigned k = a->b->width; Expr *h = cst(b->c >> k, a->a->width), *l = cst(b->c, k); return mk(OR, 1, mk(ULT, 1, a->a, h), mk(AND, 1, mk(EQ, 1, a->a, h), mk(ULT, 1, a->b, l))); }
				if (a->op == CONST) return notx(mk(ULE, 1, b, a));
				break;
			case ULE: if (a == b) return cst(1, 1); if (bc && b->c == maskw(a->width)) return cst(1, 1);
				if (bc && a->op == ZEXT) { if (b->c >= maskw(a->a->width)) return cst(1, 1); return mk(ULE, 1, a->a, cst(b->c, a->a->width)); }
				if (bc && a->op == CONCAT) { unsigned k = a->b->width; Expr *h = cst(b->c >> k, a->a->width), *l = cst(b->c, k); return mk(OR, 1, mk(ULT, 1, a->a, h), mk(AND, 1, mk(EQ, 1, a->a, h), mk(ULE, 1, a->b, l))); }
				if (a->op == CONST) return notx(mk(ULT, 1, b, a));
				break;
			case SLT: if (a == b) return cst(0, 1);
				{ int ta = topBit(a), tb = topBit(b); if (ta >= 0 && tb >= 0) return ta == tb ? mk(ULT, 1, a, b) : cst(ta, 1); }
				if (bc && a->op == ZEXT) { if (sgn(b->c, b->width) < 0) return cst(0, 1); return mk(ULT, 1, a, b); }
				if (a->op == CONST && b->op == ZEXT) { if (sgn(a->c, a->width) < 0) return cst(1, 1); return mk(ULT, 1, a, b); }
				break;
			case SLE: if (a == b) return cst(1, 1);
				{ int ta = topBit(a), tb = topBit(b); if (ta >= 0 && tb >= 0) return ta == tb ? mk(ULE, 1, a, b) : cst(ta, 1); } break;
			case ITE: if (a->op == CONST) return a->c ? b : d; if (b == d) return b;
				if (w == 1) {
					if (b->op == CONST && d->op == CONST) return b->c ? a : notx(a);
					if (b->op == CONST) return b->c ? mk(OR, 1, a, d) : mk(AND, 1, notx(a), d);
					if (d->op == CONST) return d->c ? mk(OR, 1, notx(a), b) : mk(AND, 1, a, b);
				}
				break;
			case ZEXT: if (a->width == w) return a; if (a->op == ZEXT) return mk(ZEXT, w, a->a); break;
			case SEXT: if (a->width == w) return a; if (a->op == ZEXT && a->a->width < a->width) return mk(ZEXT, w, a->a); if (a->op == SEXT) return mk(SEXT, w, a->a); break;
			case EXTRACT:
				if (c == 0 && a->width == w) return a;
				if (a->op == EXTRACT) return mk(EXTRACT, w, a->a, 0, 0, c + a->c);
				if (a->op == CONCAT) { unsigned wb = a->b->width; if (c + w <= wb) return mk(EXTRACT, w, a->b, 0, 0, c); if (c >= wb) return mk(EXTRACT, w, a->a, 0, 0, c - wb); return mk(CONCAT, w, mk(EXTRACT, c + w - wb, a->a, 0, 0, 0), mk(EXTRACT, wb - c, a->b, 0, 0, c)); }
				if (a->op == ZEXT) { unsigned wi = a->a->width; if (c >= wi) return cst(0, w); if (c + w <= wi) return mk(EXTRACT, w, a->a, 0, 0, c); return mk(ZEXT, w, mk(EXTRACT, wi - c, a->a, 0, 0, c)); }
				if (a->op == SEXT && c == 0) { unsigned wi = a->a->width; if (w <= wi) return mk(EXTRACT, w, a->a, 0, 0, 0); return mk(SEXT, w, a->a); }
				if (c == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR)) return mk(a->op, w, mk(EXTRACT, w, a->a, 0, 0, 0), mk(EXTRACT, w, a->b, 0, 0, 0));
				if ((a->op == AND || a->op == OR || a->op == XOR)) return mk(a->op, w, mk(EXTRACT, w, a->a, 0, 0, c), mk(EXTRACT, w, a->b, 0, 0, c));
				if (a->op == LSHR && a->b->op == CONST && c + a->b->c + w <= a->width) return mk(EXTRACT, w, a->a, 0, 0, c + a->b->c);
				if (a->op == SHL && a->b->op == CONST) { u64 k = a->b->c; if (c + w <= k) return cst(0, w); if (c >= k) return mk(EXTRACT, w, a->a, 0, 0, c - k); }
				if (a->op == ITE) return mk(ITE, w, a->a, mk(EXTRACT, w, a->b, 0, 0, c), mk(EXTRACT, w, a->d, 0, 0, c));
				break;
			case CONCAT:
				if (a->op == CONST && a->c == 0) return mk(ZEXT, w, b);
				if (a->op == CONST) { unsigned k = 64 - __builtin_clzll(a->c); if (k < a->width) return mk(ZEXT, w, mk(CONCAT, k + b->width, cst(a->c, k), b)); }
				if (a->op == ZEXT) return mk(ZEXT, w, mk(CONCAT, a->a->width + b->width, a->a, b));
				if (b->op == CONCAT) return mk(CONCAT, w, mk(CONCAT, a->width + b->a->width, a, b->a), b->b);
				if (a->op == CONCAT && a->b->op == CONST && b->op == CONST) return mk(CONCAT, w, a->a, cst((a->b->c << b->width) | b->c, a->b->width + b->width));
				if (a->op == CONCAT && a->b->op == EXTRACT && b->op == EXTRACT && a->b->a == b->a && a->b->c == b->c + b->width) return mk(CONCAT, w, a->a, mk(EXTRACT, a->b->width + b->width, b->a, 0, 0, b->c));
				if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->c == b->c + b->width) return mk(EXTRACT, w, a->a, 0, 0, b->c);
				if (a->op == EXTRACT && a->c == b->width && a->a == b) return b; // cannot happen (widths)
				break;
			default: break;
		}
		Expr* e = intern(op, w, c, a, b, d);
		// unary expressions that are constant over the whole byte fold to constants
		if (e->width == 1 && e->unary() && !e->undef && !e->tab) { u64* t = table(e); bool s = true; for (int i = 1; i < 256; i++) if (t[i] != t[0]) { s = false; break; } if (s) return cst(t[0], w); }
		return e;
	}
};
