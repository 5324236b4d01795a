// Models of the functions the code under test calls outside of its own translation unit, the LLVM
// intrinsics, and the harness interface (sym_*).
#pragma once

static std::string cstrAt(Exec& E, State& s, u64 a) { std::string r; for (;;) { Val v = E.byteAt(s, a++); u64 c = E.concretize(s, v, 8); if (!c) break; r += (char)c; } return r; }
static std::unordered_map<u64, std::string> strCache;
static const std::string& litAt(Exec& E, State& s, u64 a) { auto it = strCache.find(a); if (it != strCache.end()) return it->second; Obj* o = s.mem.get(a >> 32); std::string t = cstrAt(E, s, a); if (o && o->ro) return strCache[a] = t; static std::string tmp; tmp = t; return tmp; }
static Expr* truthOf(const Val& v, unsigned w) { if (!v.e) return P.cst(v.c != 0, 1); if (w == 1) return v.e; return P.notx(P.mk(EQ, 1, v.e, P.cst(0, w))); }

// ---- heap
static int h_alloc(Exec& E, State& s, u64 n, u8 kind, Val* ret) { if (n > (1u << 24)) E.error(s, "hugealloc", "allocation of " + std::to_string(n) + " bytes"); *ret = V(E.allocObj(s, n, KHeap, "heap block", true, kind)); return 0; }
static void doFree(Exec& E, State& s, u64 a, u8 kind) {
	if (!a) return; Obj* o = s.mem.get(a >> 32);
	if (!o || (o->kind != KHeap)) E.error(s, "bad-free", "release of memory that is not a heap block");
	if (o->freed) E.error(s, "double-free", "heap block released twice");
	if ((a & 0xffffffffULL) != OFFB) E.error(s, "bad-free", "release of a pointer into the middle of a block");
	if (o->alloc != kind) E.error(s, "alloc-dealloc-mismatch", "heap block released with the wrong function");
	s.heapLive -= o->size ? o->size : 1; s.mem.drop(a >> 32);
}
#define H(name) static int name(Exec& E, State& s, const DInst& in, const Val* a, int n, Val* ret)
#define UNUSED (void)E; (void)s; (void)in; (void)a; (void)n; (void)ret
#define CV(i) E.concretize(s, a[i], 64)
#define CV32(i) E.concretize(s, a[i], 32)
H(h_malloc) { UNUSED; return h_alloc(E, s, CV(0), 0, ret); }
H(h_calloc) { UNUSED; u64 k = CV(0) * CV(1); h_alloc(E, s, k, 0, ret); Obj* o = s.mem.getw(ret->c >> 32); free(o->sym); o->sym = 0; return 0; }
H(h_realloc) { UNUSED; u64 p = CV(0), k = CV(1); if (!p) return h_alloc(E, s, k, 0, ret); Obj* o = s.mem.get(p >> 32); if (!o || o->kind != KHeap || o->freed || o->alloc != 0 || (p & 0xffffffffULL) != OFFB) { doFree(E, s, p, 0); } u64 m = std::min<u64>(o->size, k); h_alloc(E, s, k, 0, ret); E.copyMem(s, ret->c, p, m); doFree(E, s, p, 0); return 0; }
H(h_free) { UNUSED; doFree(E, s, CV(0), 0); return 0; }
H(h_new) { UNUSED; return h_alloc(E, s, CV(0), 1, ret); }
H(h_newa) { UNUSED; return h_alloc(E, s, CV(0), 2, ret); }
H(h_del) { UNUSED; doFree(E, s, CV(0), 1); return 0; }
H(h_dela) { UNUSED; doFree(E, s, CV(0), 2); return 0; }
// ---- strings
static u64 symLen(Exec& E, State& s, u64 p) { u64 k = 0; for (;; k++) { Val b = E.byteAt(s, p + k); if (!b.e) { if (!b.c) return k; } else if (E.decide(s, P.mk(EQ, 1, b.e, P.cst(0, 8)))) return k; } }
H(h_strlen) { UNUSED; *ret = V(symLen(E, s, CV(0))); return 0; }
H(h_memchr) { UNUSED; u64 p = CV(0), c = CV32(1) & 255, k = CV(2); for (u64 i = 0; i < k; i++) { Val b = E.byteAt(s, p + i); if (b.e ? E.decide(s, P.mk(EQ, 1, b.e, P.cst(c, 8))) : b.c == c) { *ret = V(p + i); return 0; } } *ret = V(0); return 0; }
// strchr on a concrete string with a symbolic character does not fork: the result is a chain of selections when used as truth value
H(h_strchr) { UNUSED;
	u64 p = CV(0); Val cv = a[1]; if (cv.e) cv = E.simpV(s, cv, 32);
	if (!cv.e) { u64 c = cv.c & 255; for (u64 i = 0;; i++) { Val b = E.byteAt(s, p + i); if (b.e ? E.decide(s, P.mk(EQ, 1, b.e, P.cst(c, 8))) : b.c == c) { *ret = V(p + i); return 0; } if (b.e ? E.decide(s, P.mk(EQ, 1, b.e, P.cst(0, 8))) : !b.c) { *ret = V(0); return 0; } } }
	if (cv.e->undef) E.error(s, "uninit", "character searched depends on uninitialised memory");
	std::string t = cstrAt(E, s, p); Expr* c8 = P.mk(EXTRACT, 8, cv.e, 0, 0, 0); Expr* r = P.cst(0, 64); for (int i = (int)t.size(); i >= 0; i--) { unsigned char q = i < (int)t.size() ? t[i] : 0; r = P.mk(ITE, 64, P.mk(EQ, 1, c8, P.cst(q, 8)), P.cst(p + i, 64), r); }
	*ret = VE(r); return 0; }
static int cmpBytes(Exec& E, State& s, u64 p, u64 q, u64 k, Val* ret) { // one decision per byte: conditions over a single input byte are decided by tables
	for (u64 i = 0; i < k; i++) { Val u = E.byteAt(s, p + i), v = E.byteAt(s, q + i); Expr *x = X(u, 8), *y = X(v, 8); Expr* ne = P.notx(P.mk(EQ, 1, x, y));
		if (ne->op == CONST ? ne->c : E.decide(s, ne)) { Expr* lt = P.mk(ULT, 1, x, y); *ret = lt->op == CONST ? V(lt->c ? 0xffffffffu : 1) : VE(P.mk(ITE, 32, lt, P.cst(-1, 32), P.cst(1, 32))); return 0; } }
	*ret = V(0); return 0; }
H(h_memcmp) { UNUSED; return cmpBytes(E, s, CV(0), CV(1), CV(2), ret); }
static int strCmp(Exec& E, State& s, u64 p, u64 q, u64 k, Val* ret) {
	for (u64 i = 0; i < k; i++) { Val u = E.byteAt(s, p + i), v = E.byteAt(s, q + i); Expr *x = X(u, 8), *y = X(v, 8);
		Expr* ne = P.notx(P.mk(EQ, 1, x, y)); if (ne->op == CONST ? ne->c : E.decide(s, ne)) { Expr* lt = P.mk(ULT, 1, x, y); *ret = V((lt->op == CONST ? lt->c : E.decide(s, lt)) ? 0xffffffffu : 1); return 0; }
		Expr* z = P.mk(EQ, 1, x, P.cst(0, 8)); if (z->op == CONST ? z->c : E.decide(s, z)) break; }
	*ret = V(0); return 0; }
H(h_strcmp) { UNUSED; return strCmp(E, s, CV(0), CV(1), ~0ULL, ret); }
H(h_strncmp) { UNUSED; return strCmp(E, s, CV(0), CV(1), CV(2), ret); }
static void memCpy(Exec& E, State& s, u64 d, u64 q, u64 k, bool ovl) { if (!k) return; if (!ovl && d != q && d < q + k && q < d + k) E.error(s, "memcpy-overlap", "memcpy with overlapping areas"); E.copyMem(s, d, q, k); }
H(h_memcpy) { UNUSED; u64 d = CV(0); memCpy(E, s, d, CV(1), CV(2), false); *ret = V(d); return 0; }
H(h_memmove) { UNUSED; u64 d = CV(0); memCpy(E, s, d, CV(1), CV(2), true); *ret = V(d); return 0; }
static void memSet(Exec& E, State& s, u64 d, Val c, unsigned w, u64 k) { if (!k) return; Exec::Ref r = E.resolve(s, d, k, true); Obj* o = s.mem.getw(r.id); Expr* e = 0; if (c.e) e = w == 8 ? c.e : P.mk(EXTRACT, 8, c.e, 0, 0, 0); if (e && e->op == CONST) { c = V(e->c); e = 0; } if (e && !o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*)); for (u64 i = 0; i < k; i++) { if (e) o->sym[r.off + i] = e; else { o->data[r.off + i] = c.c; if (o->sym) o->sym[r.off + i] = 0; } } }
H(h_memset) { UNUSED; u64 d = CV(0); memSet(E, s, d, a[1], 32, CV(2)); *ret = V(d); return 0; }
H(h_atoi) { UNUSED; u64 p = CV(0); std::string t = cstrAt(E, s, p); errno = 0; i64 v = strtol(t.c_str(), 0, 10); *ret = V((u64)(u32)(int)v); return 0; }
// sprintf, snprintf on a concrete format: numbers fork on their count of digits only, the digits stay symbolic
static void digits(Exec& E, State& s, Expr* v, unsigned base, bool up, std::vector<Val>& o) {
	unsigned w = v->width, n = 1; u64 p = base; for (;; n++) { Expr* c = P.notx(P.mk(ULT, 1, v, P.cst(p, w))); if (c->op == CONST ? !c->c : !E.decide(s, c)) break; unsigned __int128 q = (unsigned __int128)p * base; if (q > maskw(w)) { n++; break; } p = (u64)q; }
	for (unsigned i = n; i-- > 0;) { u64 d = 1; for (unsigned k = 0; k < i; k++) d *= base; unsigned sh = base == 16 ? 4*i : base == 8 ? 3*i : 0; Expr* x = base == 10 ? P.mk(UREM, w, P.mk(UDIV, w, v, P.cst(d, w)), P.cst(base, w)) : P.mk(AND, w, sh ? P.mk(LSHR, w, v, P.cst(sh, w)) : v, P.cst(base - 1, w)); Expr* c = w == 8 ? x : P.mk(EXTRACT, 8, x, 0, 0, 0); c = P.mk(ITE, 8, P.mk(ULT, 1, c, P.cst(10, 8)), P.mk(ADD, 8, c, P.cst('0', 8)), P.mk(ADD, 8, c, P.cst((up ? 'A' : 'a') - 10, 8))); o.push_back(c->op == CONST ? V(c->c) : VE(c)); }
}
static int printFormat(Exec& E, State& s, const Val* a, int n, u64 d, u64 cap, int fi, Val* ret) {
	std::string f = cstrAt(E, s, E.concretize(s, a[fi], 64)); int k = fi + 1; std::vector<Val> o;
	for (size_t i = 0; i < f.size(); i++) {
		if (f[i] != '%') { o.push_back(V((unsigned char)f[i])); continue; } if (f[++i] == '%') { o.push_back(V('%')); continue; }
		bool left = false, zero = false, alt = false; for (;; i++) { if (f[i] == '-') left = true; else if (f[i] == '0') zero = true; else if (f[i] == '#') alt = true; else break; }
		unsigned wd = 0; while (f[i] >= '0' && f[i] <= '9') wd = wd * 10 + (f[i++] - '0'); bool prec = false; unsigned pr = 0; if (f[i] == '.') { prec = true; i++; if (f[i] == '*') { if (k >= n) E.unsupported(s, "format"); pr = E.concretize(s, a[k++], 32); i++; } else while (f[i] >= '0' && f[i] <= '9') pr = pr * 10 + (f[i++] - '0'); }
		unsigned w = 32; for (;; i++) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') w = 64; else if (f[i] == 'h') w = w == 16 ? 8 : 16; else break; }
		if (k >= n) E.error(s, "format", "too few arguments for the format"); Val v = a[k++]; std::vector<Val> t;
		auto num = [&]() { Expr* x = X(v, w == 64 ? 64 : 32); return w < 32 ? P.mk(EXTRACT, w, x, 0, 0, 0) : x; };
		switch (f[i]) {
			case 'c': { Expr* x = P.mk(EXTRACT, 8, X(v, 32), 0, 0, 0); t.push_back(x->op == CONST ? V(x->c) : VE(x)); break; }
			case 's': { u64 p = E.concretize(s, v, 64); for (u64 j = 0; !prec || j < pr; j++) { Val b = E.byteAt(s, p + j); if (b.e ? E.decide(s, P.mk(EQ, 1, b.e, P.cst(0, 8))) : !b.c) break; t.push_back(b); } break; }
			case 'u': digits(E, s, num(), 10, false, t); break; case 'o': digits(E, s, num(), 8, false, t); break;
			case 'x': case 'X': if (alt) E.unsupported(s, "format"); digits(E, s, num(), 16, f[i] == 'X', t); break;
			case 'd': case 'i': { Expr* x = num(); Expr* neg = P.mk(SLT, 1, x, P.cst(0, x->width)); if (neg->op == CONST ? neg->c : E.decide(s, neg)) { t.push_back(V('-')); x = P.mk(SUB, x->width, P.cst(0, x->width), x); } digits(E, s, x, 10, false, t); break; }
			default: E.unsupported(s, "format " + f);
		}
		if (prec && f[i] != 's') E.unsupported(s, "format " + f);
		if (t.size() < wd) { size_t m = wd - t.size(); if (left) t.insert(t.end(), m, V(' ')); else if (zero && !t.empty() && !t[0].e && t[0].c == '-') t.insert(t.begin() + 1, m, V('0')); else t.insert(t.begin(), m, V(zero ? '0' : ' ')); }
		o.insert(o.end(), t.begin(), t.end());
	}
	if (cap) { u64 m = std::min<u64>(o.size(), cap - 1); for (u64 i = 0; i < m; i++) E.storeC(s, d + i, o[i], 8); E.storeC(s, d + m, V(0), 8); }
	*ret = V(o.size()); return 0;
}
H(h_sprintf) { UNUSED; return printFormat(E, s, a, n, CV(0), ~0ULL, 1, ret); }
H(h_snprintf) { UNUSED; return printFormat(E, s, a, n, CV(0), CV(1), 2, ret); }
H(h_zero) { UNUSED; *ret = V(0); return 0; }
H(h_one) { UNUSED; *ret = V(1); return 0; }
H(h_abort) { UNUSED; E.error(s, "abort", "abort called"); }
H(h_terminate) { UNUSED; E.error(s, "terminate", "std::terminate called"); }
H(h_exit) { UNUSED; throw PathEnd{"done"}; }
H(h_assertfail) { UNUSED; E.error(s, "abort", "assertion failed: " + cstrAt(E, s, CV(0))); }
H(h_purevirt) { UNUSED; E.error(s, "purevirtual", "pure virtual function called"); }
// ---- exceptions
H(h_excalloc) { UNUSED; u64 k = CV(0); i64 l = s.heapLive; u64 p = E.allocObj(s, k, KHeap, "exception object", true, 9); s.heapLive = l; *ret = V(p); return 0; }
static void excFree(State& s, u64 p) { s.mem.drop(p >> 32); s.exc.erase(p); }
H(h_excfree) { UNUSED; excFree(s, CV(0)); return 0; }
H(h_throw) { UNUSED; u64 p = CV(0); s.exc[p] = ExcRec{CV(1), CV(2), 0}; E.unwind(s, p); return 1; }
H(h_begincatch) { UNUSED; u64 p = CV(0); ExcRec& r = s.exc[p]; r.hc = r.hc < 0 ? -r.hc + 1 : r.hc + 1; if (s.caught.empty() || s.caught.back() != p) s.caught.push_back(p); *ret = V(p); return 0; }
H(h_endcatch) { UNUSED; if (s.caught.empty()) return 0; u64 p = s.caught.back(); ExcRec& r = s.exc[p]; if (r.hc < 0) { if (++r.hc == 0) s.caught.pop_back(); } else if (--r.hc == 0) { s.caught.pop_back(); excFree(s, p); } return 0; }
H(h_rethrow) { UNUSED; if (s.caught.empty()) E.error(s, "terminate", "rethrow without exception"); u64 p = s.caught.back(); s.exc[p].hc = -s.exc[p].hc; E.unwind(s, p); return 1; }
H(h_getexc) { UNUSED; *ret = a[0]; return 0; }
H(h_guardacq) { UNUSED; u64 g = CV(0); Val v = E.loadC(s, g, 8); *ret = V(v.c ? 0 : 1); return 0; }
H(h_guardrel) { UNUSED; E.storeC(s, CV(0), V(1), 8); return 0; }
// ---- setjmp / longjmp
H(h_setjmp) { UNUSED; u64 b = CV(0); u64 k = s.jmps.size(); s.jmps.push_back(JmpRec{s.st.back().uid, s.st.back().ip}); E.storeC(s, b, V(0x4a4d500000000000ULL + k), 64); *ret = V(0); return 0; }
H(h_longjmp) { UNUSED; u64 b = CV(0); Val t = E.loadC(s, b, 64); if (t.e || (t.c >> 32) != 0x4a4d5000ULL || (t.c & 0xffffffff) >= s.jmps.size()) E.error(s, "bad-longjmp", "longjmp to a buffer that was not set"); JmpRec j = s.jmps[t.c & 0xffffffff]; bool f = false; for (auto& fr : s.st) if (fr.uid == j.uid) f = true; if (!f) E.error(s, "bad-longjmp", "longjmp into a function that has returned"); u64 v = CV32(1); if (!v) v = 1; while (s.st.back().uid != j.uid) E.popFrame(s); Frame& g = s.st.back(); g.ip = j.ip; DInst& ci = g.f->code[g.ip]; if (ci.dst >= 0) g.regs[ci.dst] = V(v); if (ci.invoke) E.jump(g, ci.edges[0]); else g.ip++; return 1; }
// ---- harness interface
static Val newByte(Exec& E, State& s) { if (s.nsym >= 64) E.unsupported(s, "more than 64 symbolic bytes"); s.pc.dom.push_back(Dom::full()); s.order.push_back('b'); return VE(P.sym(s.nsym++)); }
H(h_symbyte) { UNUSED; Val v = newByte(E, s); *ret = v; return 0; }
H(h_symbytes) { UNUSED; u64 p = CV(0), k = CV(1); for (u64 i = 0; i < k; i++) { Val v = newByte(E, s); E.storeC(s, p + i, v, 8); } return 0; }
H(h_choose) { UNUSED; u64 k = CV32(0); if (!k) E.unsupported(s, "choice of nothing"); u32 c = 0; if (s.pend >= 0) { c = s.pend; s.pend = -1; } else { for (u64 i = k; i-- > 1;) { State* q = E.clone(s); q->pend = i; E.push(q); } } s.choices.push_back(c); s.order.push_back('c'); *ret = V(c); return 0; }
H(h_assume) { UNUSED;
	Expr* e = truthOf(a[0], 32); e = E.simp(s, e); if (e->undef) E.error(s, "uninit", "assumption depends on uninitialised memory");
	if (e->op == CONST) { if (!e->c) { E.nAssumeEnd++; throw PathEnd{"assume"}; } return 0; }
	if (E.S_check(s, e) != SATISFIABLE) { E.nAssumeEnd++; throw PathEnd{"assume"}; }
	E.addCons(s, e); return 0; }
H(h_assert) { UNUSED;
	const std::string& lab = litAt(E, s, CV(1)); E.nAsserts++; E.asserts[lab]++;
	Expr* e = truthOf(a[0], 32); e = E.simp(s, e);
	if (e->undef) E.error(s, "uninit", "checked value depends on uninitialised memory (" + lab + ")");
	if (e->op == CONST) { E.nAssertConst++; if (!e->c) { E.record(s, "assert", lab, 0); E.nErrPaths++; throw PathEnd{"assert"}; } return 0; }
	E.nAssertSmt++; Expr* ne = P.notx(e); Sat r = S.check(s.pc, ne, true);
	if (r == UNKNOWN) { E.incomplete["solver gave no answer for assertion " + lab]++; throw PathEnd{"unknown"}; }
	if (r == SATISFIABLE) { E.record(s, "assert", lab, ne); E.nErrPaths++; if (S.check(s.pc, e, false) != SATISFIABLE) throw PathEnd{"assert"}; }
	E.addCons(s, e); return 0; }
H(h_fail) { UNUSED; const std::string& lab = litAt(E, s, CV(0)); E.nAsserts++; E.asserts[lab]++; E.nAssertConst++; E.record(s, "assert", lab, 0); E.nErrPaths++; throw PathEnd{"assert"}; }
H(h_cover) { UNUSED; E.covers[litAt(E, s, CV(0))]++; return 0; }
H(h_note) { UNUSED; return 0; }
H(h_decide) { UNUSED; Expr* e = E.simp(s, truthOf(a[0], 32)); *ret = V(e->op == CONST ? e->c : E.decide(s, e)); return 0; }
H(h_concrete) { UNUSED; *ret = V(E.concretize(s, a[0], 64)); return 0; }
H(h_memeq) { UNUSED; u64 p = CV(0), q = CV(1), k = CV(2); Expr* r = P.cst(1, 1); for (u64 i = 0; i < k; i++) { Val u = E.byteAt(s, p + i), v = E.byteAt(s, q + i); r = P.mk(AND, 1, r, P.mk(EQ, 1, X(u, 8), X(v, 8))); } *ret = VE(P.mk(ZEXT, 32, r)); return 0; }
H(h_heaplive) { UNUSED; *ret = V(s.heapLive); return 0; }
H(h_done) { UNUSED; throw PathEnd{"done"}; }
H(h_isundef) { UNUSED; Val v = E.byteAt(s, CV(0)); *ret = V(v.e && v.e->undef); return 0; }

static void installHandlers(Exec& E) {
	auto& h = E.handlers;
	h["malloc"] = h_malloc; h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free;
	h["_Znwm"] = h["_ZnwmRKSt9nothrow_t"] = h_new; h["_Znam"] = h["_ZnamRKSt9nothrow_t"] = h_newa;
	h["_ZdlPv"] = h["_ZdlPvm"] = h["_ZdlPvRKSt9nothrow_t"] = h_del; h["_ZdaPv"] = h["_ZdaPvm"] = h["_ZdaPvRKSt9nothrow_t"] = h_dela;
	h["strlen"] = h_strlen; h["memchr"] = h_memchr; h["strchr"] = h_strchr; h["memcmp"] = h["bcmp"] = h_memcmp; h["strcmp"] = h_strcmp; h["strncmp"] = h_strncmp;
	h["memcpy"] = h_memcpy; h["memmove"] = h_memmove; h["memset"] = h_memset; h["atoi"] = h_atoi; h["sprintf"] = h_sprintf; h["snprintf"] = h_snprintf;
	h["abort"] = h_abort; h["exit"] = h["_exit"] = h_exit; h["__assert_fail"] = h_assertfail; h["_ZSt9terminatev"] = h_terminate;
	h["__cxa_allocate_exception"] = h_excalloc; h["__cxa_free_exception"] = h_excfree; h["__cxa_throw"] = h_throw; h["__cxa_begin_catch"] = h_begincatch; h["__cxa_end_catch"] = h_endcatch; h["__cxa_rethrow"] = h_rethrow; h["__cxa_get_exception_ptr"] = h_getexc; h["__cxa_call_unexpected"] = h_terminate;
	h["__cxa_guard_acquire"] = h_guardacq; h["__cxa_guard_release"] = h_guardrel; h["__cxa_guard_abort"] = h_zero; h["__cxa_atexit"] = h_zero; h["__cxa_pure_virtual"] = h_purevirt;
	h["_ZNSt8ios_base4InitC1Ev"] = h["_ZNSt8ios_base4InitD1Ev"] = h_zero;
	h["_setjmp"] = h["setjmp"] = h["__sigsetjmp"] = h["sigsetjmp"] = h_setjmp; h["longjmp"] = h["_longjmp"] = h["siglongjmp"] = h_longjmp;
	h["sym_byte"] = h_symbyte; h["sym_bytes"] = h_symbytes; h["sym_choose"] = h_choose; h["sym_assume"] = h_assume; h["sym_assert"] = h_assert; h["sym_fail"] = h_fail; h["sym_cover"] = h_cover; h["sym_note"] = h_note; h["sym_decide"] = h_decide; h["sym_concrete"] = h_concrete; h["sym_memeq"] = h_memeq; h["sym_heap_live"] = h_heaplive; h["sym_done"] = h_done; h["sym_is_undef"] = h_isundef; h["sym_symbolic"] = h_one;
}

int Exec::intrinsic(State& s, Frame& f, const DInst& in) {
	auto fin = [&]() { if (in.invoke) jump(f, in.edges[0]); else f.ip++; return 0; };
	auto A = [&](int i) { return get(f, in.ops[i]); };
	auto setr = [&](Val v) { f.regs[in.dst] = v; };
	unsigned w = in.w2; 
	switch (in.iid) {
		case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 d = concretize(s, A(0), 64), q = concretize(s, A(1), 64), k = concretize(s, A(2), 64); memCpy(*this, s, d, q, k, d == q); return fin(); }
		case Intrinsic::memmove: { u64 d = concretize(s, A(0), 64), q = concretize(s, A(1), 64), k = concretize(s, A(2), 64); memCpy(*this, s, d, q, k, true); return fin(); }
		case Intrinsic::memset: { u64 d = concretize(s, A(0), 64), k = concretize(s, A(2), 64); memSet(*this, s, d, A(1), 8, k); return fin(); }
		case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
			Expr *x = X(A(0), w), *y = X(A(1), w); bool add = in.iid == Intrinsic::uadd_with_overflow || in.iid == Intrinsic::sadd_with_overflow; Expr* r = P.mk(add ? ADD : SUB, w, x, y); Expr* o;
			if (in.iid == Intrinsic::uadd_with_overflow) o = P.mk(ULT, 1, r, x); else if (in.iid == Intrinsic::usub_with_overflow) o = P.mk(ULT, 1, x, y);
			else if (add) o = P.mk(SLT, 1, P.mk(AND, w, P.mk(XOR, w, x, r), P.mk(XOR, w, y, r)), P.cst(0, w)); else o = P.mk(SLT, 1, P.mk(AND, w, P.mk(XOR, w, x, y), P.mk(XOR, w, x, r)), P.cst(0, w));
			f.regs[in.dst] = VE(r); f.regs[in.dst + 1] = VE(o); return fin(); }
		case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
			u64 x = concretize(s, A(0), w), y = concretize(s, A(1), w);
			if (in.iid == Intrinsic::umul_with_overflow) { unsigned __int128 r = (unsigned __int128)x * y; f.regs[in.dst] = V((u64)r & maskw(w)); f.regs[in.dst + 1] = V((r >> w) != 0); }
			else { __int128 r = (__int128)sgn(x, w) * sgn(y, w); f.regs[in.dst] = V((u64)r & maskw(w)); f.regs[in.dst + 1] = V(r != (__int128)sgn((u64)r & maskw(w), w)); }
			return fin(); }
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
			Expr *x = X(A(0), w), *y = X(A(1), w); Op o = (in.iid == Intrinsic::umin || in.iid == Intrinsic::umax) ? ULT : SLT; bool mn = in.iid == Intrinsic::umin || in.iid == Intrinsic::smin; Expr* c = P.mk(o, 1, x, y); setr(VE(mn ? P.mk(ITE, w, c, x, y) : P.mk(ITE, w, c, y, x))); return fin(); }
		case Intrinsic::abs: { Expr* x = X(A(0), w); setr(VE(P.mk(ITE, w, P.mk(SLT, 1, x, P.cst(0, w)), P.mk(SUB, w, P.cst(0, w), x), x))); return fin(); }
		case Intrinsic::usub_sat: { Expr *x = X(A(0), w), *y = X(A(1), w); setr(VE(P.mk(ITE, w, P.mk(ULT, 1, x, y), P.cst(0, w), P.mk(SUB, w, x, y)))); return fin(); }
		case Intrinsic::uadd_sat: { Expr *x = X(A(0), w), *y = X(A(1), w); Expr* r = P.mk(ADD, w, x, y); setr(VE(P.mk(ITE, w, P.mk(ULT, 1, r, x), P.cst(maskw(w), w), r))); return fin(); }
		case Intrinsic::bswap: { Expr* x = X(A(0), w); Expr* r = 0; for (unsigned i = 0; i < w; i += 8) { Expr* b = P.mk(EXTRACT, 8, x, 0, 0, i); r = r ? P.mk(CONCAT, r->width + 8, r, b) : b; } setr(VE(r)); return fin(); }
		case Intrinsic::fshl: case Intrinsic::fshr: { Expr *x = X(A(0), w), *y = X(A(1), w); u64 k = concretize(s, A(2), w) % w; Expr* r; if (in.iid == Intrinsic::fshl) r = k ? P.mk(OR, w, P.mk(SHL, w, x, P.cst(k, w)), P.mk(LSHR, w, y, P.cst(w - k, w))) : x; else r = k ? P.mk(OR, w, P.mk(SHL, w, x, P.cst(w - k, w)), P.mk(LSHR, w, y, P.cst(k, w))) : y; setr(VE(r)); return fin(); }
		case Intrinsic::ctpop: { Expr* x = X(A(0), w); Expr* r = P.cst(0, w); for (unsigned i = 0; i < w; i++) { Expr* b = P.mk(EXTRACT, 1, x, 0, 0, i); r = P.mk(ADD, w, r, P.mk(ZEXT, w, b)); } setr(VE(r)); return fin(); }
		case Intrinsic::ctlz: { Expr* x = X(A(0), w); Expr* r = P.cst(w, w); for (unsigned i = 0; i < w; i++) r = P.mk(ITE, w, P.mk(EXTRACT, 1, x, 0, 0, i), P.cst(w - 1 - i, w), r); setr(VE(r)); return fin(); }
		case Intrinsic::cttz: { Expr* x = X(A(0), w); Expr* r = P.cst(w, w); for (int i = w - 1; i >= 0; i--) r = P.mk(ITE, w, P.mk(EXTRACT, 1, x, 0, 0, i), P.cst(i, w), r); setr(VE(r)); return fin(); }
		case Intrinsic::eh_typeid_for: setr(V(typeId(A(0).c))); return fin();
		case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: error(s, "trap", "array index out of bounds or other undefined behaviour (sanitizer trap)");
		case Intrinsic::stacksave: setr(V(0)); return fin();
		case Intrinsic::stackrestore: return fin();
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: setr(A(0)); return fin();
		case Intrinsic::objectsize: setr(V(~0ULL & maskw(in.w))); return fin();
		case Intrinsic::is_constant: setr(V(0)); return fin();
		case Intrinsic::eh_sjlj_setjmp: default: unsupported(s, "intrinsic " + in.callee->name);
	}
}
